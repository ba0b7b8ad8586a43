#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

E, S, K, H, M, I = "sign/encrypt.go", "sign/stream.go", "sign/keys.go", "sign/ssh.go", "sign/iomisc.go", "sign/sign.go"

p("C01", "Signatures verify for exactly the signed content and nothing else",
  "A signature made over a message or a file verifies under the signer's public key for exactly that content, and verification fails for any other content, any other public key and any altered signature value. What is signed and verified is the exact, complete byte sequence that reading the path yields, whatever its size (including empty) and whatever kind of readable path it is (regular file, symbolic link, pipe).",
  ["inputs"], "all messages and file contents, all kinds of readable path, all single and multi-byte edits of content, signature or key",
  "The tests sign one random 64-byte buffer and one 64 KiB regular file and try one truncation; other sizes, edits, keys and kinds of file are never exercised.",
  [I, M, "src/sign.go", "src/verify.go"],
  [("hash of domain string and message, Ed25519 over the digest", "sign/sign.go SignMessage/VerifyMessage"), ("SHA-512 over mapped content plus length", "sign/iomisc.go fileCksum")],
  ["results of the sign and verify calls", "exit status of the verify command"])

p("C02", "A signature matches exactly the public key of its signer",
  "A signature, also after being written out and read back, reports that it can be validated by a public key if and only if that key is its signer's. The verify command reports success only when the signature both names the given public key and verifies under it for the given file.",
  ["inputs"], "all pairs of signer and candidate key, all edits of a stored signature's key identifier or value",
  "No test looks at the key identifier at all, and tests.sh tries only one wrong key.",
  [I, K, "src/verify.go"],
  [("truncated SHA-256 of the public key stored in the signature", "sign/keys.go pkhash, sign/sign.go IsPKMatch"), ("key match demanded before verification", "src/verify.go")],
  ["match predicate of parsed signatures", "exit status of verify"])

p("C03", "Stored keys and signatures read back as what was written",
  "Public keys, private keys and signatures written to bytes or to files and read back denote exactly the same key or signature, for every comment text and every passphrase. The stored text keeps the comment given, and overwriting an existing file happens only when asked for, in which case the new content fully replaces the old.",
  ["inputs"], "all keys, comments (any bytes, including YAML and PEM syntax, non-UTF-8, very long) and passphrases",
  "The tests round-trip one key pair and one signature, always with an empty comment.",
  [K, I, M],
  [("YAML marshalling", "sign/keys.go MarshalBinary/UnmarshalBinary, sign/sign.go makeSignature"), ("safe file replacement", "sign/iomisc.go writeFile")],
  ["bytes produced by the marshal calls, objects returned by the parse calls, files on disk"])

p("C04", "A stored private key opens only with its exact passphrase, unaltered",
  "A private key saved under a passphrase is recovered only with exactly that passphrase: any other passphrase (empty, extended, truncated, re-cased) and any alteration of the stored encrypted key, salt or work parameters is refused with an error and yields no key. The stored file never contains the secret in the clear and is readable by its owner only, under any umask.",
  ["inputs"], "all passphrases and wrong passphrases, all edits of the stored protected fields",
  "The tests try one wrong and one empty passphrase against one key and one hard-coded bad file.",
  [K, M, "src/gen.go"],
  [("SHA-512 expanded passphrase, scrypt, AES-256-GCM", "sign/keys.go MarshalBinary/UnmarshalBinary"), ("mode 0600", "sign/keys.go Serialize")],
  ["results of the parse calls", "bytes and mode of the stored file"])

p("C05", "Every private key that loads is self-consistent",
  "Whenever loading a private key succeeds, whatever bytes it was loaded from, what it signs verifies under the public key it reports, and data encrypted to that public key can be decrypted with it. Key files whose secret and public halves disagree are refused with an error.",
  ["inputs"], "all key files in any supported format, intact, damaged or forged",
  "The tests only load keys the tool itself has just written.",
  [K, H],
  [("construction of a key pair from raw bytes", "sign/keys.go makePrivateKeyFromBytes"), ("OpenSSH container parsing", "sign/ssh.go parseOpenSSHPrivateKey")],
  ["objects returned by the private key loading calls"])

p("C06", "OpenSSH Ed25519 keys load as the key OpenSSH sees; others are refused",
  "Every Ed25519 key in OpenSSH format loads as exactly the key OpenSSH sees: public key lines with any comment or none, and private key files that are unencrypted or protected with AES-256 in CTR or CBC mode, the protected ones with the right passphrase only. Public and private keys of other types, unsupported ciphers, wrong passphrases and damaged key files are refused with an error.",
  ["inputs", "configurations"], "all Ed25519 keys, comments, passphrases, KDF rounds and both ciphers; all other key types",
  "Unit tests contain no SSH key; tests.sh uses two unencrypted keys with a one-word comment.",
  [H, K],
  [("public key line and wire parsing", "sign/ssh.go parseSSHPublicKey/parseEncPubKey"), ("bcrypt KDF, CBC and CTR decryption, check words, padding", "sign/ssh.go parseOpenSSHPrivateKey")],
  ["results of the key loading calls"])

p("C07", "authorized_keys yields exactly its Ed25519 keys with their comments",
  "Reading an OpenSSH authorized-keys file yields exactly the Ed25519 keys in it, in file order, each with its own comment. Blank lines, comment lines, option prefixes (with quoted spaces and commas), other key types, malformed lines, tabs and CRLF line ends never hide, add, reorder or alter a key.",
  ["inputs"], "all authorized-keys files built from key lines, option lists, foreign key types, comments, blank and malformed lines",
  "No test reads an authorized-keys file.",
  [H, "src/crypt.go"],
  [("line splitting and option skipping", "sign/ssh.go ParseAuthorizedKeys/parseAuthorizedKey")],
  ["list of keys and comments returned"])

p("C08", "Encrypt then decrypt returns the original bytes for every shape of use",
  "For every plaintext (including empty), every block size the tool accepts, every number of recipients, with or without sender authentication, and whichever of the bulk and streaming interfaces is used on either side, an encryption that reports success decrypts, for each recipient, to exactly the original bytes. An encryption that cannot be decrypted later (for example too many recipients for the header) is refused when it is made.",
  ["inputs", "configurations"], "all plaintext lengths around every chunk boundary, block sizes 1 byte to beyond the 1 GiB maximum, 1 to tens of thousands of recipients, all four interface pairings, all I/O segmentations",
  "The tests use block sizes 8 and 1024, a few sizes and at most four recipients, and never cross bulk and stream interfaces.",
  [E, S, "internal/pb/hdr_vtproto.pb.go"],
  [("chunking, end marker, nonce counter", "sign/encrypt.go Encrypt/encrypt/decrypt"), ("partial-chunk buffering", "sign/stream.go Write/Close/Read"), ("limits on header and chunk size", "sign/encrypt.go NewEncryptor/start/NewDecryptor")],
  ["output of decryption compared with the input of encryption"])

p("C09", "Exactly the listed recipients can decrypt",
  "Each recipient an encrypted file was addressed to can decrypt it with their own private key alone, whatever their position and whoever else is listed. Anybody else's key is refused with an error and obtains no plaintext.",
  ["inputs", "configurations"], "all recipient sets (sizes, orders, duplicates, sender among them, native and OpenSSH keys) and all outsider keys",
  "One test uses four recipients; no test tries a key that is not a recipient.",
  [E],
  [("per-recipient key wrapping bound to recipient key", "sign/encrypt.go wrapKey/unwrapKey/SetPrivateKey")],
  ["result of selecting the key and bytes released for every key in and out of the set"])

p("C10", "Tampering by outsiders never yields accepted or altered plaintext",
  "If an encrypted file is altered by anyone who is not a recipient - bytes changed, removed, inserted, truncated at any point, chunks reordered, duplicated, dropped or taken from another file, header fields edited even with the checksum recomputed - then either decryption fails with an error, or the plaintext it returns is exactly the original. At no time is plaintext released that is not a prefix of the original.",
  ["inputs", "histories"], "all alterations of all valid encrypted files, for both the bulk and the streaming reader",
  "One test overwrites about half of one file at random and only checks that the header is refused; no altered chunk, truncation or splice is tried.",
  [E, S],
  [("AEAD per chunk with counter nonce and length/end marker as additional data", "sign/encrypt.go encrypt/decrypt"), ("header checksum mixed into the key expansion", "sign/encrypt.go start/SetPrivateKey")],
  ["error result and all bytes released to the sink or reader"])

p("C11", "Sender authentication holds, even against fellow recipients",
  "When a receiver names the expected sender, decryption succeeds only if that sender produced this exact file with this exact content; unauthenticated files, files from another sender, and files whose content was changed, reordered, extended or cut short by a fellow recipient who knows the file key are refused with an error. A sender-authenticated file is also refused when no sender key or a wrong one is named, and a file is reported as authenticated only if its sender was verified.",
  ["inputs", "histories"], "all honest files, all forgeries computable by outsiders and by recipients holding the file key, for library and command line",
  "One test checks a single wrong sender key on an honest file; no forged or unauthenticated file is presented to a receiver that expects a sender.",
  [E, S, "src/crypt.go"],
  [("signature over the key material, encrypted in the header", "sign/encrypt.go addSenderSig/verifySender"), ("signed running HMAC of the plaintext as trailer", "sign/encrypt.go writeTrailer/processTrailer")],
  ["result of key selection and decryption, authenticated flag, exit status of decrypt -v"])

p("C12", "Encryption and decryption contexts are one-shot and refuse misuse",
  "For every sequence of calls on an encryption or decryption context, calls out of order are refused with an error and never crash: adding recipients once encryption began, encrypting or opening a stream again on a context already used, writing or closing after close, decrypting before a key was accepted, mixing bulk and stream use. A refused call (a wrong private key or sender included) leaves the context exactly as usable as before, and one context never produces a second ciphertext under the same keys.",
  ["histories"], "all finite sequences of context operations, valid and invalid arguments interleaved",
  "Tests use each context once in the right order, with one write-after-close check.",
  [E, S],
  [("started/stream/eof flags and sticky errors", "sign/encrypt.go AddRecipient/Encrypt/SetPrivateKey/Decrypt, sign/stream.go")],
  ["result of every call in the sequence and the bytes the sinks received"])

p("C13", "I/O failures are always reported, never turned into silent loss",
  "Whenever reading the source or writing or closing the destination fails at any point, the encrypting or decrypting operation reports an error; if it reports success, the destination received the complete and correct output and was accepted by its close. Sources that deliver data in arbitrary pieces and destinations that accept it in pieces make no difference to the result.",
  ["fault_sequences", "inputs"], "every position of a single read, write or close failure (any error value other than the end-of-stream and closed-pipe markers), every segmentation of reads and writes, bulk and streaming",
  "No test injects an I/O error or a short read or write.",
  [E, S],
  [("error propagation and full writes", "sign/encrypt.go Encrypt/start/encrypt/Decrypt/fullwrite"), ("sticky stream error", "sign/stream.go")],
  ["result of the operation against the fault actually injected and the bytes received"])

p("C14", "Hostile input is refused with an error, never a crash or runaway",
  "No sequence of bytes presented as an encrypted file, public key, private key, signature or authorized-keys file makes the library or the command crash, loop, or allocate memory out of proportion to the documented limits (a key file may declare a password-hashing cost up to a fixed limit); malformed input is refused with an error.",
  ["inputs"], "all byte strings for every parser: random, truncated, mutated valid files, and structured files with hostile field values",
  "The tests feed one randomly corrupted encrypted file and one bad key file.",
  [E, K, H, I, "internal/pb/hdr_vtproto.pb.go"],
  [("length and range checks of the header", "sign/encrypt.go NewDecryptor"), ("YAML, PEM and SSH wire parsing", "sign/keys.go, sign/ssh.go"), ("protobuf decoding", "internal/pb")],
  ["panic, abnormal exit, CPU time and allocation of every parse"])

p("C15", "The stored formats stay interoperable with the documented version 3",
  "Encrypted files, keys and signatures produced by the tool can be read by an independent implementation of the documented formats, and files produced by that implementation, or by earlier builds of this version, are read correctly by the tool. Encrypted files carrying another version number or magic are refused.",
  ["inputs", "configurations"], "all plaintexts, keys, recipients and block sizes, in both directions, plus a fixed corpus of stored files",
  "Round-trip tests cannot notice a change made consistently on both sides; no stored file is checked in.",
  [E, K, I, "internal/pb/hdr.proto"],
  [("header layout, key expansion contexts, chunk framing, trailer", "sign/encrypt.go"), ("YAML key and signature layout, scrypt parameters", "sign/keys.go, sign/sign.go")],
  ["bytes on disk, decoded and produced by a separate reference implementation"])

p("C16", "Every key, salt, nonce and file key is fresh and fully random",
  "No two encryptions, generated keys or saved private keys ever share a salt, ephemeral key, file key, wrapped-key nonce or key salt, even for identical input, and all bits of these values come from the system's random source however it segments its answers. If the random source fails, the operation fails and produces nothing.",
  ["inputs", "histories", "fault_sequences"], "all histories of operations in one process and across processes; all short-read and failure positions of the random source",
  "No test compares two outputs or disturbs the random source.",
  ["sign/rand.go", E, K],
  [("full reads of the random source, panic on failure", "sign/rand.go randRead/randBuf"), ("fresh values per context", "sign/encrypt.go NewEncryptor/wrapKey/newSender, sign/keys.go MarshalBinary")],
  ["all random fields of outputs, bytes drawn from the random source"])

p("C17", "Secrets never appear in outputs or diagnostics",
  "Outside the explicit debug mode, no output of any operation - encrypted files, key and signature files, standard output, standard error, error messages - contains private key bytes, file keys or passphrases in raw, hex or base64 form, whether the operation succeeds or fails. Encrypted files do not contain recognisable pieces of the plaintext.",
  ["inputs", "histories"], "all operations and failures with marked secrets",
  "No test inspects outputs or messages for secrets.",
  [E, K, H, "src/die.go", "src/crypt.go", "src/gen.go", "src/sign.go"],
  [("debug output off by default", "sign/encrypt.go debug"), ("encryption of private keys and plaintext", "sign/keys.go, sign/encrypt.go")],
  ["every byte written to files, stdout and stderr and every error string"])

p("C18", "Commands never clobber files and a failed command changes nothing",
  "Without the overwrite option no command modifies a file that existed when it started, and encryption and decryption never put their output in place of the input file they were given, even with it. A command that fails leaves every pre-existing file unchanged and leaves no output or temporary file behind; a command that succeeds changes only the outputs named.",
  ["inputs", "fault_sequences", "configurations"], "all commands, option combinations, pre-existing outputs (files, links, directories) and failure causes",
  "tests.sh checks one refusal to overwrite a key pair and looks at no file after a failure.",
  ["src/gen.go", "src/sign.go", "src/crypt.go", "src/die.go", M],
  [("safe files aborted at exit", "src/die.go AtExit/Exit, sign/iomisc.go writeFile"), ("existence checks and same-file check", "src/gen.go, src/crypt.go")],
  ["snapshot of the whole working directory before and after each command"])

p("C19", "Exit status 0 means done and complete; failures exit nonzero with a reason",
  "A command exits with status 0 only if the requested operation fully succeeded and all its output was stored completely; any failure, including a failure to write, flush or put in place the output, gives a nonzero status and, unless quiet was asked for, a message. Legitimate requests exit with status 0.",
  ["inputs", "fault_sequences"], "all commands with valid and invalid arguments, wrong keys and passphrases, damaged inputs, full devices, and failures of each output system call",
  "tests.sh only runs requests that succeed, plus three that fail for one reason.",
  ["src/sigtool.go", "src/sign.go", "src/verify.go", "src/crypt.go", "src/gen.go", "src/die.go"],
  [("Die on every error", "src/die.go"), ("close/rename results", "src/crypt.go, src/sign.go")],
  ["exit status, stderr and output of the real command under injected faults"])

p("C20", "A crash at any point leaves each output old or complete, never partial",
  "If a command is killed or the machine's system calls fail at any point, each output path holds either what it held before (or nothing) or the complete new content, never a partial or mixed one. A concurrent reader of an output path likewise only ever sees complete old or new content.",
  ["crash_points", "schedules"], "every system call of every output-producing command as kill point; concurrent readers and writers of one path",
  "No test kills the tool or reads an output while it is written.",
  [M, "src/crypt.go", "src/sign.go", "src/gen.go"],
  [("temporary file, sync, rename", "sign/iomisc.go writeFile and the commands' safe files")],
  ["content of the output paths after every kill, and every content seen by concurrent readers"])

p("C21", "Shared keys and independent contexts are safe under concurrency",
  "Any number of goroutines may at the same time sign, verify, encrypt, decrypt, serialise and convert using the same key objects and separate contexts, without data races. Each operation gives the same outcome as if it ran alone.",
  ["schedules"], "all interleavings of operations over shared keys, including the first use of a freshly loaded key",
  "All tests are single-threaded and none runs under the race detector.",
  [K, E, S, I],
  [("keys treated as immutable; no shared mutable package state", "sign/keys.go ToCurve25519PK/ToCurve25519SK, package variables")],
  ["race detector reports and outcome of every concurrent operation"])

p("C22", "Operations release every file, mapping, goroutine and temporary file",
  "After any operation returns, successful or failed, the process holds no more open files, memory mappings, goroutines or temporary files than before. Repeating operations any number of times in one process does not accumulate them.",
  ["histories", "fault_sequences"], "all histories of library operations with successes and failures mixed",
  "No test looks at descriptors, mappings or leftovers.",
  [M, I, K, S],
  [("deferred close and unmap", "sign/iomisc.go fileCksum"), ("abort of safe files", "sign/iomisc.go writeFile")],
  ["process descriptor table, memory map, goroutine count and directory listings"])

p("C23", "Memory stays bounded by the block size, however large the data",
  "Encrypting and decrypting, in bulk or streaming, consume and produce data incrementally: memory use depends on the block size and number of recipients, not on the length of the data, and each full block of input leads to output before much further input is consumed. Files far larger than memory limits can thus be encrypted, decrypted, signed and verified.",
  ["inputs"], "all data lengths, block sizes and both interfaces",
  "The largest input of any test is 64 KiB.",
  [E, S, M],
  [("chunk-sized buffers", "sign/encrypt.go Encrypt/Decrypt, sign/stream.go"), ("memory-mapped hashing", "sign/iomisc.go fileCksum")],
  ["peak heap and lag between input consumed and output produced, and RSS of the command"])

p("C24", "Every way of naming a key on the command line selects exactly that key",
  "A recipient or verification key given as a native key file, an OpenSSH public key file, a user@host entry of the user's authorized keys, or (for verification) a native or OpenSSH key string selects exactly that key. A name that cannot be resolved to an Ed25519 key makes the command fail without producing output, even when other recipients are valid.",
  ["inputs", "configurations"], "all mixes of valid and invalid recipient names and key strings, all authorized_keys contents",
  "tests.sh uses one key per command and never uses user@host names.",
  ["src/crypt.go", "src/verify.go", H, K],
  [("comment map from authorized_keys, file parsing", "src/crypt.go encrypt"), ("string first, then file", "src/verify.go")],
  ["who can decrypt the output, exit status of the commands"])

p("C25", "Key generation produces a matching, usable pair under the requested names",
  "The generate command writes a public and a private key that belong together, under the requested prefix and with the requested comment and passphrase protection, the private one readable by the owner only. If either file already exists and overwriting was not requested, it changes neither; with overwriting it replaces both.",
  ["inputs", "configurations"], "all prefixes, comments, passphrase options, pre-existing file combinations and umasks",
  "tests.sh generates pairs in one configuration and does not compare them or check modes.",
  ["src/gen.go", K, M],
  [("existence checks, then private and public serialisation", "src/gen.go")],
  ["the two files, their modes and contents, and operations with them"])

p("C26", "Signing keys convert to corresponding encryption keys for all key pairs",
  "For every Ed25519 key pair, the encryption public key derived from the public key is the one that corresponds to the encryption private key derived from the private key, and both are the standard birational conversions. Deriving them repeatedly, in any order, gives the same values and does not alter the signing keys, and a public key that has no usable counterpart is refused as a recipient.",
  ["inputs"], "all key pairs (including those whose converted value has leading zero bytes) and all 32-byte public keys",
  "Conversion is only exercised through a handful of random keys.",
  [K, E],
  [("birational map and hash-and-clamp", "sign/keys.go ToCurve25519PK/ToCurve25519SK/clamp")],
  ["values returned by the conversion calls, compared with an independent computation"])

p("C27", "Streams honour the reader and writer contracts and leave caller data alone",
  "The streaming writer accepts every write completely or reports an error, never keeps or changes the caller's buffer, emits nothing decryptable as complete before it is closed, and closes its destination exactly once; the streaming reader delivers the plaintext once, in order, in any read sizes, never more than asked, then end of file forever, and after an error no further data. Bulk and streaming use are interchangeable in what a receiver gets.",
  ["inputs", "histories"], "all sequences of write sizes, read sizes (zero included) and buffer reuse by the caller",
  "Tests use fixed 7- and 19-byte pieces and stop at the first end of file.",
  [S, E],
  [("chunk buffer and deferred flush of the last chunk", "sign/stream.go encWriter"), ("unread remainder, sticky error", "sign/stream.go encReader")],
  ["every call result and every buffer before and after the call"])

p("C28", "The commands work end to end for every input, output, key and option mix",
  "Encrypting then decrypting, and signing then verifying, with the commands yields the original data, or acceptance, for every combination of file, standard input and standard output, native and OpenSSH keys, passphrase option (a typed passphrase included), block size, sender authentication and command abbreviation. Verification and decryption of altered data fail, and test-only decryption reports the same verdict as real decryption while writing no plaintext.",
  ["inputs", "configurations"], "all combinations of input source, output sink, key kind, passphrase source, block size, option order and abbreviation",
  "tests.sh is one linear script on one small input file.",
  ["src/sigtool.go", "src/crypt.go", "src/sign.go", "src/verify.go", "src/gen.go"],
  [("command dispatch and option handling", "src/sigtool.go main, src/crypt.go encrypt/decrypt")],
  ["exit status, output bytes and files of real command runs"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
