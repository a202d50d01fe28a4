#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a})

ENC, STR, KEYS, SSH, SIG, IOM = "sign/encrypt.go", "sign/stream.go", "sign/keys.go", "sign/ssh.go", "sign/sign.go", "sign/iomisc.go"
PB, PBH = "internal/pb/hdr_vtproto.pb.go", "internal/pb/helpers.go"

p("C01", "Encrypt then decrypt returns the plaintext exactly",
  "For every plaintext (including the empty one and every size around a multiple of the block size), every block size, every set of one or more recipients and with or without a sender key, encrypting and then decrypting with any recipient's private key succeeds and yields exactly the original bytes. It holds however the input reader and the encrypted-file reader fragment their data, including short reads and data delivered together with end-of-file.",
  ["inputs", "configurations", "schedules"],
  "all plaintext bytes, lengths, block sizes, recipient counts, sender on/off, reader fragmentations (within the stated bounds)",
  "The tests use a handful of sizes with block size 8 or 1024, one reader that never fragments, and never the empty plaintext.",
  [ENC, PB], [("Encryptor.Encrypt / encrypt / writeTrailer", ENC), ("Decryptor.Decrypt / decrypt / processTrailer", ENC)],
  ["bytes written by Decrypt", "errors returned"])
p("C02", "Streaming and whole-file APIs round-trip and interoperate",
  "Data written to the encrypting stream in any sequence of Write calls of any sizes and then closed decrypts to exactly the concatenation of those writes, whether read back through the streaming reader with any sequence of buffer sizes or through the whole-file decryption; and whole-file encryption output reads back identically through the streaming reader. Every Write reports all bytes accepted, and the streaming reader ends with io.EOF exactly after the last byte.",
  ["inputs", "histories", "configurations"],
  "all write/read size sequences, contents and block sizes within the bounds",
  "The tests write fixed 19- or 7-byte pieces; alignment of write boundaries with block boundaries is sampled, not covered, and stream/whole-file mixing is never tried.",
  [STR, ENC], [("encWriter.Write/Close", STR), ("encReader.Read", STR)], ["bytes returned by Read", "n and err of Write/Read/Close"],
  [("encWriter.n", "bytes buffered for the current block", STR), ("encReader.unread", "decrypted bytes not yet handed out", STR)])
p("C03", "No tampered payload is ever accepted",
  "If anything after the header of an encrypted file is changed by someone who does not hold a recipient key - bits flipped, blocks reordered, duplicated, dropped or spliced from another position, the file truncated at any point including block boundaries, or replaced by arbitrary bytes - decryption either fails or yields exactly the original plaintext. In every case the bytes handed out before the failure are a prefix of the original plaintext.",
  ["inputs", "fault_sequences"],
  "all byte strings in place of the payload up to the bound, all original plaintexts up to the bound; both decryption APIs",
  "The only corruption test randomises the whole file including the header, so it never reaches the payload checks.",
  [ENC, STR], [("block number in the AEAD nonce, length+EOF marker as AD", ENC), ("EOF marker and trailer", ENC)], ["bytes written by Decrypt/Read", "error"])
p("C04", "No tampered header is ever accepted",
  "If the header of an encrypted file (magic, version, length, any header field or wrapped key, or the checksum) differs in any way from what the encryptor produced, decryption by any recipient fails and yields no plaintext, even when whoever changed it recomputed the header checksum. In particular recipients cannot be removed, reordered or replaced and the block size cannot be changed without detection.",
  ["inputs"],
  "all replacements of header bytes, and all structure-level edits with a recomputed checksum, within the bounds",
  "Tests only check that a wholly garbled file fails to open; no test rewrites a header consistently.",
  [ENC, PB], [("header checksum", ENC), ("header checksum as HKDF salt of the data keys", ENC)], ["NewDecryptor / SetPrivateKey / Decrypt errors"])
p("C05", "Exactly the named recipients can decrypt",
  "Every recipient added to the encryption can decrypt, independent of how many recipients there are and of its position in the list, and a private key that is not one of the recipients is always refused with an error and obtains no plaintext. Encryption for more recipients than a file can name fails instead. A public key of small order, whose shared secret everybody knows, is refused as a recipient.",
  ["inputs", "configurations"],
  "all key pairs, recipient lists up to the bound, every choice of decrypting key",
  "One test decrypts with four random recipients; no test tries a non-recipient key or a duplicate recipient.",
  [ENC, KEYS], [("wrapKey / unwrapKey", ENC), ("SetPrivateKey", ENC)], ["SetPrivateKey error", "plaintext"])
p("C06", "Sender authentication is truthful",
  "After a private key has been accepted, the decryptor reports an authenticated sender if and only if the encryptor signed the file's key material with the private half of the sender key that was supplied; a file signed by a sender is refused when the supplied sender key is a different one or when none is supplied. A file that was not signed never reports an authenticated sender, whatever sender key is supplied.",
  ["inputs", "configurations", "histories"],
  "all sender/expected-sender key combinations incl. none, all repeated attempts on one decryptor within the bound, header sender fields replaced",
  "Tests cover one wrong and one right sender key on a signed file; unsigned files with a sender key, missing sender keys and retries are not covered.",
  [ENC], [("addSenderSig / verifySender", ENC)], ["AuthenticatedSender()", "SetPrivateKey error"])
p("C07", "A co-recipient cannot alter sender-authenticated content",
  "When decryption of a sender-authenticated file completes without error, the plaintext is exactly what that sender encrypted, even if the file was modified by another recipient who knows the file's root key and can therefore produce validly encrypted blocks (changed, truncated, extended or empty). Such files end in an error.",
  ["inputs", "fault_sequences"],
  "all replacement plaintexts and block structures a key-holding attacker can build within the bound",
  "No test builds a validly encrypted but unauthorised payload; the trailer check is never exercised on a bad trailer.",
  [ENC], [("running HMAC over blocks", ENC), ("signed trailer, processTrailer", ENC)], ["Decrypt / Read error"])
p("C08", "No key stream is ever used twice",
  "Over any sequence of calls on an encryptor, including after failures, no two blocks are ever encrypted under the same key and nonce, so the XOR of two ciphertext blocks never equals the XOR of their plaintexts. Blocks at different positions of one file always use different nonces, for every block number that can occur.",
  ["histories", "inputs"],
  "all API call sequences up to the bound; all pairs of 32-bit block numbers",
  "Tests call one encryption per encryptor and never compare nonces; block numbers above 23 are never reached.",
  [ENC, STR], [("per-block nonce from block number", ENC), ("one-shot encryptor state", ENC)], ["ciphertext written"])
p("C09", "An encryptor's life cycle is enforced",
  "Once an encryptor has started producing output no recipient can be added, it cannot be started a second time by either API, and an encrypting stream that was closed or has failed accepts no more data. Each such call returns an error and produces no output.",
  ["histories"],
  "all sequences of AddRecipient, Encrypt, NewStreamWriter, Write and Close up to the bound",
  "Tests only check one write after Close.",
  [ENC, STR], [("started/stream flags", ENC), ("encWriter.err", STR)], ["error results", "bytes written to the destination"],
  [("Encryptor.started", "header has been written", ENC), ("Encryptor.stream", "streaming API in use", ENC)])
p("C10", "A decryptor's life cycle is enforced",
  "No plaintext is ever produced before a private key (and, for signed files, the sender) has been accepted; after a refused key, with none accepted before it, every decryption call returns an error rather than plaintext or a crash, and a later attempt with the right keys succeeds. Once a stream reader is in use, whole-file decryption fails rather than claim success, and after the end of the data has been delivered, further decryption calls deliver nothing more, whatever follows in the input.",
  ["histories"],
  "all sequences of SetPrivateKey (right key, wrong key, wrong sender), Decrypt, NewStreamReader and Read up to the bound",
  "Tests call each step once in the intended order, except one retried SetPrivateKey.",
  [ENC, STR], [("key/eof/stream state", ENC), ("encReader.err", STR)], ["errors", "plaintext", "panics"])
p("C11", "Encryption reports every read and write failure",
  "If reading the plaintext or writing the encrypted output fails at any point, whole-file and streaming encryption return an error and never report success for an incomplete output, and a failed stream keeps failing on later calls. Short writes are completed, not lost.",
  ["fault_sequences", "inputs"],
  "a failure at every read/write/close operation, every short-write split, within the bounds",
  "No test injects an I/O error or a short write.",
  [ENC, STR], [("fullwrite", ENC), ("error propagation in Encrypt/Write/Close", ENC)], ["errors", "bytes written"])
p("C12", "Decryption reports every read and write failure",
  "If the encrypted input fails or ends early at any point, or the plaintext output cannot be written at any point, decryption returns an error and never reports success; the streaming reader returns an error other than io.EOF and keeps returning it. Whatever was written before is a prefix of the plaintext.",
  ["fault_sequences", "inputs"],
  "a failure at every read/write operation and a cut at every byte offset, within the bounds",
  "No test injects an I/O error; truncation is never tested.",
  [ENC, STR], [("io.ReadFull checks", ENC), ("fullwrite", ENC), ("encReader.err", STR)], ["errors", "bytes written"])
p("C13", "Opening any byte string as an encrypted file is safe",
  "For every byte string presented as an encrypted file, opening it, setting a key and decrypting return an error or succeed but never crash, and a header that claims a variable part larger than 1 MiB, an unsupported version, a zero or over-large block size, a wrong-sized salt or no wrapped keys is refused.",
  ["inputs"],
  "all fixed headers and length fields; all header contents and payload prefixes within the bounds, with valid checksums",
  "One random-corruption test, which fails at the checksum almost always; nothing behind the checksum is reached.",
  [ENC, PB], [("NewDecryptor sanity checks", ENC), ("decrypt() block length checks", ENC)], ["panics", "errors"])
p("C14", "Header encoding round-trips",
  "Encoding any header value (block size, salt, ephemeral key, sender blob, list of wrapped keys) produces exactly the predicted number of bytes, and decoding those bytes gives back an equal header, for every field value and length including empty fields and lengths on either side of a varint size boundary.",
  ["inputs"],
  "all 32-bit block sizes, all field contents and lengths within the bounds, wrapped-key lists up to the bound",
  "The codec has no test of its own; the encryption tests use one set of lengths.",
  [PB, PBH], [("SizeVT/MarshalToSizedBufferVT/UnmarshalVT", PB)], ["decoded fields", "encoded size"])
p("C15", "Header decoding is safe on arbitrary bytes",
  "Decoding any byte string as a header either fails with an error or yields a header whose fields are taken from the input; it never crashes, never reads outside the input and unknown fields are skipped without disturbing the known ones.",
  ["inputs"],
  "all byte strings up to the bound, and all length varints up to 10 bytes",
  "No test feeds malformed header bytes past the checksum.",
  [PB], [("UnmarshalVT bounds checks", PB)], ["panics", "errors", "decoded fields"])
p("C16", "Every requested block size is usable",
  "For every requested block size, zero selects 4 MiB, sizes above 1 GiB are reduced to 1 GiB and any other size is used exactly; and every block size the encryptor accepts is accepted again by the decryptor, so no block size produces a file that cannot be opened.",
  ["inputs", "configurations"],
  "all 64-bit block sizes",
  "Tests use 8 and 1024 only.",
  [ENC], [("NewEncryptor clamp", ENC), ("NewDecryptor range check", ENC)], ["ChunkSize in the header", "NewDecryptor error"])
p("C17", "Message signatures verify exactly what was signed",
  "A signature made with a private key verifies under that key's public key for exactly the signed message; it does not verify for any other message, under any other public key, or if any byte of the signature is changed, shortened or extended.",
  ["inputs"],
  "all message pairs, key pairs and signature edits within the bounds",
  "One random message and one truncated variant are tested.",
  [SIG], [("SignMessage / VerifyMessage", SIG)], ["VerifyMessage result"])
p("C18", "File signatures bind the whole content and its length",
  "A file's signature verifies for a file if and only if that file's content is byte-for-byte the content that was signed; changing any byte, truncating, extending or swapping in another file makes verification return false, and a file that cannot be read makes signing and verifying return an error.",
  ["inputs", "fault_sequences"],
  "all pairs of file contents within the bound, including empty files, unreadable files",
  "One 64 KiB file and one truncation by a byte are tested.",
  [SIG, IOM], [("fileCksum: content hash plus length", IOM), ("SignFile/VerifyFile", SIG)], ["VerifyFile result and error"])
p("C19", "Signatures survive serialisation and identify their key",
  "Serialising a signature with any comment and parsing it back gives a signature that still verifies the same message and that matches the public key that made it and no other; parsing fails on text whose signature or key-hash field is not valid base64.",
  ["inputs"],
  "all signatures, keys and key-hash edits within the bounds",
  "One signature is round-tripped and only its signature bytes are compared; key matching after parsing is not tested.",
  [SIG, KEYS], [("MarshalBinary/makeSignature", SIG), ("pkhash / IsPKMatch", KEYS)], ["IsPKMatch", "VerifyMessage"])
p("C20", "Private keys survive storage and open only with their passphrase",
  "A private key serialised under a passphrase (possibly empty) and read back with the same passphrase is the same key: same secret, same public key, signatures made by it verify under the original public key. Reading it with any other passphrase, or after any change to the encrypted key, the salt or the cost parameters, fails with an error.",
  ["inputs"],
  "all passphrase pairs, keys, and edits of the stored fields within the bounds",
  "One key, three passphrases; field edits are not tested.",
  [KEYS], [("MarshalBinary / UnmarshalBinary", KEYS), ("scrypt KEK + AEAD", KEYS)], ["errors", "recovered key bytes"])
p("C21", "Malformed private key files are refused without crashing",
  "Reading any sigtool private-key document - fields missing, empty, over-short, not base64, of wrong length, or with absurd cost parameters - returns an error and never crashes and never yields a key that is not 64 bytes long.",
  ["inputs"],
  "all salts, encrypted keys and cost parameters of the lengths within the bounds",
  "One malformed document is tested.",
  [KEYS], [("UnmarshalBinary checks", KEYS), ("makePrivateKeyFromBytes", KEYS)], ["panics", "errors"])
p("C22", "Public keys survive serialisation in every accepted form",
  "A public key serialised with any comment, or given as its bare base64 string, parses back to the same 32 bytes with the same key hash; the key hash always depends on the key bytes alone and any value that is not exactly 32 bytes is refused.",
  ["inputs"],
  "all 32-byte keys; all decoded lengths within the bound",
  "One key is round-tripped; the string form and hash are not tested by the Go tests.",
  [KEYS], [("MarshalBinary/UnmarshalBinary", KEYS), ("MakePublicKeyFromString", KEYS), ("makePublicKeyFromBytes", KEYS)], ["Pk", "Hash()", "errors"])
p("C23", "OpenSSH public keys are read correctly or refused",
  "An OpenSSH ed25519 public key line (type, base64 blob, and a comment that may be missing or have blanks) or bare base64 blob yields exactly the 32 key bytes in the blob and its comment; a blob of another key type, with a wrong key length, trailing bytes, or cut short anywhere is refused with an error. No input crashes the reader or yields success without a key.",
  ["inputs"],
  "all blobs up to the bound including all length fields, algorithm names and truncations",
  "The Go tests never read an SSH key; the shell test reads two freshly generated ones.",
  [SSH, KEYS], [("parseSSHPublicKey / parseEncPubKey / parseString", SSH)], ["Pk", "Comment", "errors", "panics"])
p("C24", "OpenSSH private keys are read correctly or refused",
  "An OpenSSH ed25519 private key, unencrypted or encrypted with a passphrase (AES-256 CTR or CBC), yields exactly the key it contains; a wrong passphrase, mismatching check words, bad padding, wrong key length, unknown cipher or several keys are refused with an error. No key file, however truncated or malformed, crashes the reader.",
  ["inputs"],
  "all contents of each field, all length fields and truncation points within the bounds",
  "The shell test reads two unencrypted keys; encrypted and malformed keys are never read.",
  [SSH], [("parseOpenSSHPrivateKey", SSH), ("extractBcryptIvBlock", SSH)], ["recovered key", "errors", "panics"])
p("C25", "authorized_keys files yield exactly their ed25519 keys",
  "Parsing an authorized_keys file returns, in order, the key and comment of every ed25519 entry and nothing else: comment lines, blank lines, other key types and malformed lines are skipped without affecting their neighbours, and leading options (including quoted ones), carriage returns and a missing final newline are tolerated. No input crashes the parser.",
  ["inputs"],
  "all arrangements of line kinds and all line contents within the bounds",
  "No test parses an authorized_keys file.",
  [SSH], [("ParseAuthorizedKeys / parseAuthorizedKey", SSH)], ["keys and comments returned"])
p("C26", "Files are replaced only on request and never half-written",
  "Writing a key or signature file never touches an existing file unless overwriting was requested, and when any step of writing fails the call returns an error, the previous content of the file is intact and no partial or temporary file remains. On success the file holds exactly the new content; private key files are not accessible to group or others.",
  ["fault_sequences", "configurations"],
  "a failure at every file-system operation, existing/absent target, overwrite on/off",
  "Tests check overwrite refusal on success paths only; no I/O failure is injected.",
  [IOM, KEYS, SIG], [("writeFile via SafeFile", IOM), ("Serialize", KEYS)], ["file-system state", "errors"])
p("C27", "The verify command's exit status is the verdict",
  "The verify command exits with status 0 if and only if the signature file is a valid signature of the given file by the given public key; a wrong key, a signature naming another key, a changed file, or any unreadable or malformed input gives a nonzero status, with or without quiet mode.",
  ["inputs", "configurations"],
  "all signature/key/file combinations and quiet on/off within the bounds",
  "The shell test tries two keys on one file; changed files and malformed inputs are not tried.",
  ["src/verify.go", SIG], [("verify()", "src/verify.go")], ["exit status"])
p("C28", "The sign command delivers a valid signature or fails",
  "When the sign command exits with status 0, the signature has been written in full to the requested destination and verifies for the file under the signer's public key; if the key cannot be read, the file cannot be read or the signature cannot be written it exits nonzero and leaves no signature file behind. An existing signature file is replaced only when overwriting was requested.",
  ["fault_sequences", "configurations", "inputs"],
  "a failure at every file-system operation; existing output; overwrite on/off; output to file or standard output",
  "The shell test only signs successfully.",
  ["src/sign.go", SIG, IOM], [("signify()", "src/sign.go")], ["exit status", "file-system state"])
p("C29", "The encrypt command delivers a complete file or fails cleanly",
  "When the encrypt command exits with status 0 (other than to show its help), the output holds the complete encryption of the input, decryptable by every recipient named on the command line and signed exactly when a signing key was given. If any recipient cannot be resolved or any read or write fails it exits nonzero and leaves no output file, and an existing output file is replaced only when overwriting was requested and the new file is complete.",
  ["fault_sequences", "configurations", "inputs"],
  "a failure at every file-system operation, recipient lists with resolvable and unresolvable entries, overwrite on/off",
  "The shell test only encrypts successfully to one recipient.",
  ["src/crypt.go", "src/die.go", ENC], [("encrypt()", "src/crypt.go"), ("Die/AtExit", "src/die.go")], ["exit status", "file-system state"])
p("C30", "The decrypt command never leaves unverified output",
  "The decrypt command exits with status 0 (other than to show its help) only if the whole file decrypted and authenticated, and only then does the output file appear with exactly the plaintext, a new one accessible to its owner only; on any failure it exits nonzero, no output file is created and an existing one keeps its content. An existing output file is replaced only when overwriting was requested, and test mode never writes the output.",
  ["fault_sequences", "configurations", "inputs"],
  "corruption and I/O failure at every point within the bounds, overwrite and test flags on/off",
  "The shell test only decrypts intact files successfully.",
  ["src/crypt.go", "src/die.go", ENC], [("decrypt()", "src/crypt.go"), ("SafeFile/Abort", "src/crypt.go")], ["exit status", "file-system state"])
p("C31", "decrypt with a sender key accepts only that sender's files",
  "When the decrypt command is asked to verify the sender against a public key, it exits with status 0 only if the file was signed by that sender; files signed by somebody else and files not signed at all are refused and produce no output.",
  ["inputs", "configurations"],
  "signed by the expected sender / another sender / nobody, output to file or standard output",
  "The shell test verifies one correctly signed file.",
  ["src/crypt.go", ENC], [("-v handling in decrypt()", "src/crypt.go"), ("verifySender", ENC)], ["exit status", "output"])
p("C32", "encrypt and decrypt never replace their own input",
  "When the output file named on the command line is the input file itself, under the same or another name for it, the encrypt and decrypt commands refuse with a nonzero status and leave the input untouched, even when overwriting was requested.",
  ["configurations"],
  "same path, differently spelled path, hard link; overwrite on/off; both commands",
  "No test names the same file as input and output.",
  ["src/crypt.go"], [("os.SameFile check", "src/crypt.go")], ["exit status", "input file content"])
p("C33", "Recipients named user@host get the key with that comment",
  "Encrypting to a recipient of the form user@host encrypts to the ed25519 key in the user's authorized_keys file whose comment is exactly that name, and to no other key; if there is no such entry or file the command exits nonzero without producing output.",
  ["inputs", "configurations"],
  "all comments within the bound, files with several keys, missing file",
  "No test uses authorized_keys recipients.",
  ["src/crypt.go", SSH], [("keymap lookup", "src/crypt.go"), ("ParseAuthorizedKeys", SSH)], ["who can decrypt", "exit status"])
p("C34", "generate creates a matching key pair and overwrites nothing",
  "When the generate command exits with status 0 it has written a private key file, protected by the given passphrase, and a public key file whose keys belong together; if either file already exists and overwriting was not requested, or any write fails, it exits nonzero; existing files keep their content unless overwriting was requested.",
  ["fault_sequences", "configurations"],
  "existing/absent files, overwrite on/off, a failure at every file-system operation",
  "The shell test generates twice in the same place; failures are not injected.",
  ["src/gen.go", KEYS, IOM], [("gen()", "src/gen.go"), ("exists", "src/sigtool.go")], ["exit status", "file-system state"])
p("C35", "Ed25519 keys convert to well-formed Curve25519 keys",
  "Converting a public key yields the 32-byte little-endian encoding of (1+y)/(1-y) modulo the field prime with the sign bit ignored, for every y coordinate including results with leading zero bytes; converting a private key yields the clamped first half of the SHA-512 of its seed. Repeating a conversion gives the same result, so both sides of an exchange agree for every key pair.",
  ["inputs"],
  "all 32-byte keys (field arithmetic itself treated as an uninterpreted function)",
  "Tests use random keys, so results with leading zero bytes (1 key in 256 or fewer) are rarely met and never checked on purpose.",
  [KEYS], [("ToCurve25519PK / ToCurve25519SK / clamp", KEYS)], ["converted key bytes"])
p("C36", "Encrypted files follow the documented version-3 format",
  "Every encrypted file consists of the documented fixed header, protobuf header, SHA-256 sum, length-prefixed AEAD blocks with block number in the nonce and the last-block marker in the length, and 64-byte trailer, with keys derived as documented; an independent implementation of the format decrypts every file the encryptor writes, and files written by the independent implementation are accepted.",
  ["inputs", "configurations"],
  "all plaintexts, block sizes and recipients within the bounds",
  "Round-trip tests cannot see a change made consistently on both sides; no test has a fixed reference file.",
  [ENC, PB, "README.md"], [("start/encrypt/writeTrailer", ENC)], ["bytes of the encrypted file"])
p("C37", "All key material is fresh and full-length random",
  "Each encryption uses a new random root key, salt and ephemeral key, each wrapped key its own random nonce, and each stored private key its own random salt; every bit of them comes from the system's random source, and a failing random source never leads to predictable keys.",
  ["inputs", "fault_sequences"],
  "all outcomes of the random source, including short reads and failure",
  "Tests cannot tell a random byte from a constant one.",
  ["sign/rand.go", ENC, KEYS], [("randRead/randBuf", "sign/rand.go"), ("newSender", ENC)], ["header fields", "data-key dependence"])
p("C38", "Commands are dispatched by unambiguous name only",
  "A command word runs a command if and only if it is, ignoring case, the full name or an unambiguous prefix of exactly one command; anything else exits nonzero without doing anything, and a missing command, missing arguments or an option that the command does not have exit nonzero. Asking a command for its help does nothing else and exits with status 0.",
  ["inputs"],
  "all command words and options up to the bound, all argument counts below the required number",
  "The shell test uses five one-letter commands.",
  ["src/sigtool.go"], [("main() dispatch", "src/sigtool.go")], ["exit status"])
p("C39", "The passphrase key derivation meets its stated cost",
  "Recovering a private key from a stolen key file requires at least one scrypt evaluation with N=2^19, r=8, p=1 per passphrase guess.",
  ["inputs"], "all attack strategies",
  "A computational-hardness claim; tests can only observe parameters.",
  [KEYS], [("scrypt parameters", KEYS)])
p("C40", "Curve and field arithmetic is correct",
  "X25519 on converted keys computes the same shared secret on both sides, i.e. the Ed25519-to-Curve25519 map commutes with scalar multiplication.",
  ["inputs"], "all key pairs",
  "Random keys are sampled.",
  [KEYS, ENC], [("ToCurve25519PK, curve25519.X25519", KEYS)])
p("C41", "Key handling does not leak through timing",
  "The time taken by key unwrapping, checksum comparison and passphrase checking does not depend on secret values.",
  ["inputs"], "all secret values",
  "Functional tests do not observe time.",
  [ENC, KEYS], [("subtle.ConstantTimeCompare", ENC)])
p("C42", "A typed passphrase is asked for, confirmed and kept out of the output",
  "Without an option that says otherwise, generate asks for the passphrase and its confirmation at the terminal and makes a key pair only if both agree within two tries; the private key then opens with that passphrase and no other, and otherwise generate fails and creates or changes no file. sign, encrypt with a signing key and decrypt ask for the passphrase of an encrypted private key once, succeed exactly if it is the right one, and otherwise (also without a terminal) fail without leaving any output. The dialogue never becomes part of what these three write to standard output, so redirected output is complete and unaltered.",
  ["inputs", "configurations"],
  "all passphrases, typed lines and confirmations within the bounds, every command, every place of output",
  "No test of the repository types anything: all of them use --no-password or an environment variable.",
  ["src/gen.go", "src/sign.go", "src/crypt.go"], [("gen()", "src/gen.go"), ("signify()", "src/sign.go"), ("encrypt() / decrypt()", "src/crypt.go"), ("askpass()", "src/askpass.go")],
  ["exit status", "standard output", "file-system state"])

p("C43", "Keys and signatures are stored in the documented form",
  "Stored keys and signatures have the documented form, and everything of that form is read. A private key file is YAML with esk = AES-256-GCM of the 64-byte Ed25519 key under scrypt(SHA512(passphrase), 32-byte salt, Z=2^19, r=8, p=1) with the first 12 bytes of the salt as nonce; a public key file holds the key and the first 16 bytes of its SHA-256 hash; a signature file holds the hash of the key and the Ed25519 signature over SHA512(\"sigtool signed message\" || message), where the message for a file is SHA512(content || size as 8 bytes big endian). Files written by one build are thus read by every other, and stored private keys have the stated protection.",
  ["inputs", "histories"],
  "all keys, passphrases, messages and file contents within the bounds",
  "The tests only read what the same build wrote, so a change made alike on both sides goes unnoticed.",
  ["sign/keys.go", "sign/sign.go", "sign/iomisc.go"], [("PrivateKey.MarshalBinary / UnmarshalBinary", "sign/keys.go"), ("PublicKey.MarshalBinary / UnmarshalBinary", "sign/keys.go"), ("SignMessage / VerifyMessage", "sign/sign.go"), ("fileCksum", "sign/iomisc.go")],
  ["bytes written", "returned error", "return value"])

p("C44", "Independent objects and their callers do not interfere",
  "Encryptors, decryptors, streams, keys and signatures that are in use at the same time in one program do not influence each other: whatever order the steps of two of them are taken in, and whatever other work happens while one of them reads or writes, each gives the result it gives alone, also when they share keys, passphrases or block sizes. Slices that a caller passes in (plaintext, messages, passphrases, documents) are neither changed nor needed afterwards, and data already delivered does not change later.",
  ["inputs", "schedules", "histories"],
  "all interleavings of the steps of two objects and all points of interruption within the bounds",
  "Every test uses one object at a time and never looks at its arguments again.",
  ["sign/encrypt.go", "sign/stream.go", "sign/keys.go", "sign/sign.go", "sign/ssh.go"], [("Encryptor / Decryptor", "sign/encrypt.go"), ("encWriter / encReader", "sign/stream.go"), ("PrivateKey / PublicKey", "sign/keys.go"), ("Signature", "sign/sign.go")],
  ["plaintext", "encrypted bytes", "return values", "caller's slices"])

p("C45", "Messages reveal no secrets",
  "What generate, sign, encrypt and decrypt write to standard error (without --debug), what they write to standard output besides their result, and whether they succeed given that a passphrase is right or wrong, do not depend on the secrets themselves: not on passphrases (from the environment or typed), private keys (right, malformed or new), file keys or plaintext.",
  ["inputs"],
  "all pairs of secrets within the bounds (two runs compared)",
  "A test sees what one run prints and cannot tell whether it is a function of a secret.",
  ["src/*.go", "sign/keys.go", "sign/encrypt.go", "sign/ssh.go"], [("gen, signify, encrypt, decrypt, Warn, Die", "src/"), ("PrivateKey.UnmarshalBinary", "sign/keys.go"), ("parseEncPubKey / parseEncPrivKey", "sign/ssh.go"), ("debug", "sign/encrypt.go")],
  ["standard error", "standard output", "exit status"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
