'''The catalog of properties.  Writes /verif/properties.jsonl and /verif/MANIFEST.json (only the
properties whose check exists).  Run:  python3 tools/catalog.py'''
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, note, tech, observe=()):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over.split(),
                  text=' '.join(text.split()), why=' '.join(why.split()),
                  files=['bitcoinx/' + f for f in files.split()],
                  mech=[tuple(m.split(' @ ')) for m in mech], note=' '.join(note.split()),
                  tech=tech, observe=list(observe)))

SEQ = 'explicit enumeration of operation sequences on the real code, against a reference model'
INP = 'bounded-exhaustive enumeration of executions of the real code, against a reference'
CRASH = 'exhaustive crash-point enumeration (every instruction, every torn write) on the real code'
FAULT = 'exhaustive fault-point enumeration on the real code'
SCHED = 'stateless model checking: all schedules of the real code to a preemption bound'

prop('C01', 'The header collection is a faithful block tree after every history',
 '''After any sequence of valid headers arriving in any order with any forks, the collection's length,
 chains, chain memberships, heights, lookups by hash, headers at heights, accumulated work, work ranges,
 longest (most-work, on a tie the oldest) chain, common ancestor and median time past are exactly those
 of the block tree those headers form.  This holds whatever the checkpoint and the cache size, and
 observing never changes it; offering a header already held changes nothing and returns its chain.''',
 'histories configurations inputs', '''all arrival orders of up to 6 (thorough 7) headers, every
 placement of each; four cache sizes and three checkpoint heights; deep histories over file growth,
 cache eviction, >65536 chains and colliding hash prefixes''',
 '''the tests build one or two hand-made forks; the number of arrival histories and fork shapes is
 factorial and the lookup, cache and chain code only differ on particular ones''',
 'chain.py coin.py', ['Headers.connect, lookup, _read_headers, _read_header @ bitcoinx/chain.py:288',
 'Chain @ bitcoinx/chain.py:84'],
 '''Exhaustive for every history within the bounds; trusts the plain reference tree in
 mc/chainmodel.py.  A toy coin supplies proof of work.''', SEQ)

prop('C02', 'A header is admitted exactly when it is valid, and a refusal has no effect',
 '''A new header offered to the collection is accepted exactly when it has the right size, its parent
 is held, its difficulty bits are those the coin requires there and its hash meets them; otherwise
 the corresponding error is raised.  After a refusal every observable of the collection and every
 byte of its file are as before, and valid headers still connect.''',
 'histories inputs', '''every tree of up to 5 (thorough 6) headers, every parent in it, every
 wrong-size, unknown-parent, wrong-bits and insufficient-work candidate of a menu, and every valid
 child''',
 '''tests refuse a header at one or two points of one chain and look at the error only; which state is
 corrupted by a refusal depends on history''',
 'chain.py coin.py', ['Headers.connect @ bitcoinx/chain.py:428'],
 'Exhaustive within the bounds; toy coin with a branch-, height- and time-dependent difficulty rule.', SEQ)

prop('C03', 'Reopening the headers file gives back the same block tree',
 '''Opening a headers file again, at any point of any history and whether the earlier handle was closed,
 flushed or abandoned, gives a collection with every header and the same block tree, and leaves the
 file unchanged.  A file that is not a headers file for that checkpoint is replaced by a fresh one
 and headers placed below the checkpoint in any order are found at their heights.''',
 'histories configurations', '''all arrival orders of up to 5 (thorough 6) headers times all sets of
 reopening points times three ways of letting go of the file; all orders of setting headers below
 the checkpoint; damage to the file; reserved areas of 8 to 65535 bytes; checkpoint moves along an
unforked trunk''',
 '''tests reopen one file once; the chain structure is recomputed from the file at each opening and can
 go wrong only for particular fork shapes''',
 'chain.py', ['_HeaderStorage.open_or_create @ bitcoinx/chain.py:221', 'Headers._read_headers @ bitcoinx/chain.py:361'],
 'Exhaustive within the bounds; the file is assumed not to be altered by others.', SEQ)

prop('C04', 'The headers file survives the process being killed at any instant',
 '''If the process is killed at any instant of creating, opening, growing or writing the headers file, the
 file can be opened again and holds every header acknowledged before, and the header being added
 either completely or not at all.  Further headers can then be added.''',
 'crash_points histories', '''every Python instruction of each operation in each of a set of histories
 (creation, growth of the file, ordinary additions, forks, reopening, setting), and every torn
 variant (prefix, suffix and subset of 8-byte words) of every write''',
 '''no test kills the process; there are thousands of instants and the damage shows at a few of them''',
 'chain.py', ['_HeaderStorage.append, _set_raw_header, _create_file @ bitcoinx/chain.py:194'],
 '''Exhaustive over instants at Python instruction granularity and tears within stated rules; assumes a
 process kill (not power loss) and 8-byte atomic aligned stores.''', CRASH)

prop('C05', 'Required difficulty equals the network rule at every boundary',
 '''For each network and each era of its rules, the difficulty bits required of the next header equal
 those of the published consensus rule for that ancestry and time: fortnightly retargets with clamps and
 limit, emergency adjustments, the 144-block algorithm with its median-of-three choice, testnet minimum difficulty
 blocks.  The requirement follows the branch the header extends, and headers of a
 chain are admitted exactly when they satisfy it.''',
 'inputs histories', '''all combinations of boundary heights, spans, timestamp orders (ties included), bits and
 proposed times in each era of each network; forked chains connected header by header across era changes''',
 '''tests replay one recorded sequence per network, which reaches each clamp, limit and tie rarely or
 never''',
 'work.py chain.py coin.py', ['required_bits_* @ bitcoinx/work.py:80', 'Headers.required_bits @ bitcoinx/chain.py:486'],
 'Exhaustive over the boundary grid; trusts the reference rules in mc/c05.py, written from the specification.', INP)

prop('C06', 'Compact bits, targets and work are related as consensus defines',
 '''Decoding compact difficulty bits, encoding a target (the largest representable value not above it),
 and the work they stand for follow the consensus definitions exactly for every value, and values
 outside the valid range are refused.  Decoding then encoding gives back canonical bits.''',
 'inputs', '''every exponent byte with every boundary mantissa (thorough: every mantissa); all small
 targets and all targets near powers of two and mantissa edges''',
 'tests sample a few bits values; carries, sign bits and truncation occur at particular ones',
 'work.py coin.py', ['bits_to_target, target_to_bits, bits_to_work @ bitcoinx/work.py:34'],
 'Exhaustive over the enumerated domain (thorough: the full 2^32 space of valid exponents).', INP)

prop('C07', 'Binary codecs are exact, self-delimiting and loud on bad input',
 '''Every integer, variable-length integer, byte string, list and header packs to the standard bytes and
 reads back to the same value, consuming exactly its own bytes from a stream.  Data cut short anywhere raises
 an error, and so does a value out of range; hash and integer text conversions invert each other.''',
 'inputs', '''all 16-bit values and all values near powers of two and limits, all lengths near each
 limit, each stream cut at every byte, with and without neighbouring data''',
 'tests use a handful of values per codec and do not cut streams at every byte',
 'packing.py misc.py hashes.py coin.py', ['pack_*/read_* @ bitcoinx/packing.py:96', 'Coin.deserialized_header @ bitcoinx/coin.py:99'],
 'Exhaustive over the boundary domain against byte-level references.', INP)

prop('C08', 'Transactions survive serialization exactly in the standard format',
 '''Any transaction with in-range fields serializes to the standard wire format, with the stated size and
 hash, and parsing those bytes or hex, alone or amid a stream, gives an equal transaction and consumes exactly
 its bytes.  Truncated data raises an error at every cut; out-of-range fields cannot be serialized.''',
 'inputs', 'all combinations of boundary field values, input/output counts and script lengths, all cuts',
 'tests parse a few recorded transactions; boundaries of counts and lengths are not met',
 'tx.py packing.py', ['Tx/TxInput/TxOutput read, to_bytes, size @ bitcoinx/tx.py:51'],
 'Exhaustive over the boundary domain against an independent serializer.', INP)

prop('C09', 'The signature hash is the standard one and commits to the right fields',
 '''For every sighash byte, input, value and script the hash signed for an input is that of the
 replay-protected digest specification, and editing a field of the transaction changes it exactly
 when that sighash type commits to the field.  It is never stale after edits, and unusable arguments (an index out of
 range, a negative or too large value, a sighash that is not a SigHash) are refused.''',
 'inputs histories', '''all 256 sighash bytes times all shapes up to 3 inputs and 4 outputs times every input;
 every single-field edit; every sequence of edits to a depth''',
 'tests check recorded vectors for a few types; commitment is a claim about every edit',
 'tx.py signature.py', ['Tx.signature_hash @ bitcoinx/tx.py:102', 'SigHash @ bitcoinx/signature.py:168'],
 'Exhaustive within bounds against a reference digest and an independent commitment table.', INP)

prop('C10', 'Facts derived from a transaction are right and never stale',
 '''Whether a transaction is a coinbase (exactly one input, which is the null outpoint), whether it is
 final for a block height and time, its total output value, size, hash and text forms are those of its
 current contents.  This holds after any sequence of edits to its fields, inputs and outputs.''',
 'inputs histories', '''all combinations of boundary lock times, heights, times and sequences; every
 combination of input kinds; every edit sequence to depth 3 (thorough 4)''',
 'tests look at one transaction at a time and never edit one after asking',
 'tx.py', ['Tx.is_coinbase, is_final_for_block, hash, total_output_value @ bitcoinx/tx.py:58'],
 'Exhaustive over edit sequences to the depth, compared with a freshly parsed transaction.', SEQ)

prop('C11', 'Script pushes and numbers are minimal and read back exactly',
 '''Every item pushes with the shortest standard opcode and executing the push yields exactly the item;
 every integer is pushed in its minimal form and reads back as itself; push-and-drop sequences leave
 the stack as it was.  Items too long to push are refused.''',
 'inputs', '''all items to two bytes and all lengths to 600 and around each limit; all integers below 70000
 and near powers of two; all number encodings to two (thorough three) bytes; lists to 7 items''',
 'tests sample a few lengths and integers',
 'script.py misc.py', ['push_item, push_int, item_to_int, push_and_drop_items @ bitcoinx/script.py:199'],
 'Exhaustive over the boundary domain, with a reference stack machine.', INP)

prop('C12', 'Scripts are parsed, composed and templated faithfully',
 '''Iterating a script yields exactly its opcodes and pushed data in order, and a script cut within a
 push raises the truncation error after the operations before it.  Composing scripts, items,
 integers and opcodes in any grouping gives the concatenation of their standard encodings and
 leaves operands unchanged; a template lists the script's shape with no-ops and dropped pushes removed.''',
 'inputs programs', '''every script to two bytes, every token sequence to length 4 (thorough 5) over the
 opcodes where parsing changes, every pair and triple of compositions''',
 'tests parse a few scripts; truncation at each position and template stripping are combinatorial',
 'script.py', ['Script.ops, __lshift__, push_many, to_template @ bitcoinx/script.py:320'],
 'Exhaustive over bounded scripts against a reference parser.', INP)

prop('C13', 'Scripts and their readable text agree in both directions',
 '''Rendering a script as text gives the documented words for every opcode, number, datum and (when
 asked) signature hash type, marking truncation; parsing text gives the documented script or is refused;
 and where the text is unambiguous parsing gives back the script rendered.  Hexadecimal words are
 taken as data, decimal words as numbers, exactly.''',
 'inputs programs', '''all opcodes, all items to two bytes, all numbers near powers of two, all token
 sequences to a length, all short words of an alphabet, all sighash bytes on signatures of every length''',
 'tests render and parse a list of examples; ambiguity between numbers, hex and names arises between them',
 'script.py signature.py', ['Script.to_asm, from_asm, op_to_asm_word, asm_word_to_bytes @ bitcoinx/script.py:406'],
 '''Exhaustive over the bounded words and scripts.  Texts ambiguous in the format itself (a 4- or 5-byte push whose
 hex reads as a decimal; non-minimal numbers) are excluded and listed in DESIGN.md.''', INP)

prop('C14', 'Output scripts are recognised as exactly what they are',
 '''An output script is classified as pay-to-pubkey-hash, pay-to-script-hash, pay-to-pubkey, multisig or
 data carrier exactly when it has that form (no-ops and dropped pushes aside) with valid keys and thresholds, with the right contents and
 coin, and as unknown otherwise, never raising.  Each output object gives its standard script, which
 classifies back to an equal object, for each coin in any order of use.''',
 'inputs histories', '''all token sequences to a length, every one-byte edit of each standard script, all
 thresholds and key counts to 20, coins in every order''',
 'tests classify one script of each kind',
 'script.py address.py', ['classify_output_script @ bitcoinx/script.py:311', 'outputs @ bitcoinx/address.py:97'],
 'Exhaustive over bounded scripts against a reference classifier.', INP)

prop('C15', 'Base 58 is exact and its checked form lets no damaged text through',
 '''Base 58 encodes every byte string as the standard does, leading zeros included, and decoding is its
 inverse; text with any character outside the alphabet is refused.  Checked text decodes to exactly what was
 encoded and every text whose checksum does not match is refused.''',
 'inputs', '''all byte strings to two (thorough three) bytes, all counts of leading zeros, values near
 powers of 58 and 256, all short texts; all one-character edits of checked texts of every payload length to 82''',
 'tests use recorded vectors', 'base58.py', ['base58_* @ bitcoinx/base58.py:27'],
 'Exhaustive over the domain against a schoolbook reference.', INP)

prop('C16', 'An address string names one destination on one network, or is refused',
 '''Writing an address and reading it back on its network gives an equal address, of the same kind, hash and
 coin, in each text form and letter case the standards allow.  Any string that is not exactly a valid form for the network asked about (damaged,
 other network or prefix, wrong size, kind or padding, mixed case) is refused with ValueError.''',
 'inputs configurations', '''both kinds, all networks, all forms; every one-character edit of each form,
 every pair of substitutions at a set of distances, every version byte, length, kind code, padding and prefix''',
 'tests read a few recorded addresses; error detection is a claim about every edit',
 'address.py cashaddr.py base58.py coin.py', ['Address.from_string @ bitcoinx/address.py:53', 'decode @ bitcoinx/cashaddr.py:156'],
 'Exhaustive over the enumerated edits, against reference decoders written from the specifications.', INP)

prop('C17', 'Private keys are imported and exported exactly, or refused',
 '''Every secret from 1 to the group order less 1 passes through bytes, integer, hex, WIF and text forms unchanged,
 with its compression flag and network; values out of range and malformed or damaged text are refused
 with ValueError.  Minikeys and random keys follow their definitions whatever the random source returns.''',
 'inputs configurations', '''boundary secrets times networks times compression; all WIF lengths, prefix and suffix bytes; every
 one-character edit; every sequence of up to 4 random-source answers''',
 'tests use a few keys per form and a well-behaved random source',
 'keys.py base58.py coin.py', ['PrivateKey.from_* / to_* @ bitcoinx/keys.py:159'],
 'Exhaustive over the enumerated forms; the entropy source is scripted.', INP)

prop('C18', 'Key arithmetic is that of secp256k1 and leaves its operands alone',
 '''Adding, multiplying, combining and complementing keys, and shared secrets, give the points and
 scalars of secp256k1 arithmetic, consistently for private and public keys and from both sides, keeping compression and
 network; results with no key (zero, infinity) raise ValueError.  Points and encodings read back
 exactly, invalid ones are refused, and no operation changes the key it is applied to.''',
 'inputs histories', '''all pairs of boundary secrets, all multisets of up to 3 (4) points and negatives, every
 prefix and length of boundary encodings, all sequences of up to 4 operations''',
 'tests check a few random pairs; cancellations, leading zeros and operand mutation are special cases',
 'keys.py', ['PrivateKey.add/multiply, PublicKey.add/multiply/combine_keys @ bitcoinx/keys.py:221'],
 'Exhaustive over the boundary grid, against a plain reference of the curve.', INP)

prop('C19', 'ECDSA signatures are made, verified and converted exactly',
 '''A signature made by a key is the deterministic (RFC 6979) low-S one, verifies under its key and no
 other message or key, and recovers the key; verification accepts exactly the valid signatures.  DER, compact,
 recoverable and message encodings convert into one another without loss, and malformed ones are
 refused with an error or do not verify, never crash or pass.''',
 'inputs', '''all pairs of boundary secrets and hashes; all pairs of boundary r and s through every encoding;
 every one-byte edit and cut of signatures; every recovery byte and length''',
 'tests sign and verify a few messages; malleations and boundary r, s are not met',
 'signature.py keys.py', ['sign/verify/convert @ bitcoinx/signature.py:47'],
 'Exhaustive over the enumerated edits, against a plain reference of ECDSA.', INP)

prop('C20', 'Signed messages prove who signed what, and nothing else',
 '''A message signed by a key verifies under that key and under its address, and recovers that key with its
 compression; any other message, key, address or any altered signature does not verify.  The text (base 64) and
 byte forms agree, the signed digest is the standard one for every message length, and malformed signatures are never accepted
 nor raise anything but the documented error.''',
 'inputs', '''messages of every length around each limit, every header byte, every flipped bit, every
 length, every one-character edit of the text form, all pairings of messages, keys and addresses''',
 'tests sign a few short messages', 'keys.py signature.py',
 ['sign_message, verify_message, verify_message_and_address, from_signed_message @ bitcoinx/keys.py:253'],
 'Exhaustive over the enumerated edits.  Address checks are claimed for pay-to-pubkey-hash addresses.', INP)

prop('C21', 'Encrypted messages are readable by the recipient only, as written',
 '''A message encrypted to a public key decrypts with its private key to exactly the message, whatever its
 length and ephemeral key, in the standard (BIE1-style ECIES) format; the ephemeral key is fresh each time.  Any alteration, truncation,
 other key or other magic makes decryption fail with the documented error and returns no data.''',
 'inputs configurations', '''messages of every length to 80 and near block multiples, both AES
 back ends, scripted ephemeral keys, every flipped bit, cut and extension, every padding byte''',
 'tests round-trip a few messages; padding and authentication are claims about every alteration',
 'keys.py aes.py', ['encrypt_message, decrypt_message @ bitcoinx/keys.py:294', 'AES-CBC with PKCS7 @ bitcoinx/aes.py:43'],
 'Exhaustive over the enumerated alterations, against a plain reference of ECIES and AES.', INP)

prop('C22', 'Hierarchical key derivation follows BIP32, privately and publicly alike',
 '''Deriving any child from any extended key gives the key, chain code, depth, index, parent fingerprint
 and network of BIP32, and private-then-public equals public-then-derive for unhardened indices.  Hardened
 derivation from a public key, bad indices and bad seeds are refused, and safe derivation skips
 exactly the invalid children, in order, without leaving the hardened or unhardened range.''',
 'inputs fault_sequences', '''boundary parents times boundary indices; all paths to 3 (4) steps; seeds of every
 length to 130; every pattern of up to 3 consecutive invalid derivations at each boundary index''',
 'tests use the published vectors; invalid children never occur by chance', 'bip32.py keys.py',
 ['child, child_safe, from_seed @ bitcoinx/bip32.py:103'],
 'Exhaustive within bounds; invalid children are forced by scripting the HMAC.', INP)

prop('C23', 'Extended key strings and chain strings are exact or refused',
 '''Writing an extended key and reading it gives an equal key with the same derivation data and network, in
 the standard format, and any string that is not exactly such a form is refused with ValueError.  Chain strings
 such as m/0'/1 and index lists convert to one another exactly, and anything else is refused.''',
 'inputs', '''all combinations of boundary fields; every one-character edit, payload byte change, length
 and key prefix; all chain strings to 4 (5) characters of an alphabet, all index sequences to 3''',
 'tests use the published vectors and a few bad strings', 'bip32.py',
 ['bip32_key_from_string, bip32_decompose_chain_string @ bitcoinx/bip32.py:239'],
 'Exhaustive over the enumerated strings. Depth 0 with a parent is accepted, as the code documents no check.', INP)

prop('C24', 'BIP39 mnemonics encode entropy exactly and only valid ones pass',
 '''A generated mnemonic encodes exactly the entropy drawn plus the standard checksum, and is valid;
 a mnemonic is valid exactly when its word count, words and checksum are right, and the wrong
 words are reported.  Normalization is idempotent and independent of spelling form, spacing and case, and the seed is that of the
 standard for the normalized text and passphrase.''',
 'inputs', '''boundary entropies of every size and each bit alone; every word in the checksum position;
 every word count to 30; every Unicode code point in normalization''',
 'tests use the published vectors', 'mnemonic.py', ['BIP39Mnemonic @ bitcoinx/mnemonic.py:97', 'Wordlists @ bitcoinx/mnemonic.py:52'],
 'Exhaustive over the enumerated mnemonics and all code points, against a reference.', INP)

prop('C25', 'Electrum mnemonics and old seeds are exact, and only valid ones pass',
 '''A generated mnemonic has at least the entropy asked for, bears the version prefix asked for, is in the word list and, if asked,
 is not also an old-style one; validity is exactly the version-prefix and old-seed definitions.
 Old-style seeds convert between words and hex exactly in both directions, and anything else is refused.''',
 'inputs fault_sequences', '''all random-source answers of a boundary set and all prefixes; all word triples of
 a boundary set; all short hex chunks; every word count''',
 'tests use a few recorded seeds', 'mnemonic.py', ['ElectrumMnemonic @ bitcoinx/mnemonic.py:201'],
 'Exhaustive over the enumerated domain; the entropy source is scripted.', INP)

prop('C26', 'Results do not depend on locale, optimization, hash seed or backend',
 '''The same calls give the same results and errors whatever the process locale and encoding, with or without
 interpreter optimization, whatever the hash seed, the order in which parts are first used, and whichever
 AES implementation is present.''',
 'configurations inputs', '''every combination of locale or UTF-8 mode, optimization level, hash seed and AES
 availability of a set, running a broad battery of calls in a fresh process''',
 'the tests run in one environment', 'aes.py mnemonic.py script.py packing.py',
 ['optional AES import @ bitcoinx/aes.py:30', 'word list reading @ bitcoinx/mnemonic.py:76'],
 'Exhaustive over the listed configurations; each battery is a fixed program.', 'exhaustive configuration enumeration on the real code, outcomes compared across processes')

prop('C27', 'First use of shared state from several threads is safe',
 '''When several threads use the library at once, each gets the result it would get alone, also where
 something is computed on first use and kept, such as a coin's output templates, word lists, key objects and
 caches.  Afterwards the kept state is as if computed once.''',
 'schedules', '''all interleavings, with up to two preemptions at any line (thorough: instruction) of the library, of pairs of
 calls that share lazily computed state''',
 'no test uses threads; the windows are a few instructions wide', 'script.py mnemonic.py keys.py coin.py util.py',
 ['lazy output templates @ bitcoinx/script.py:292', 'word list cache @ bitcoinx/mnemonic.py:82'],
 '''All schedules within the preemption bound at Python instruction granularity.  The header
 collection is not claimed to be thread safe.''', SCHED)

prop('C28', 'The JSON view of transactions and scripts is faithful',
 '''The JSON form of a transaction, input, output and script gives exactly the values, hashes, scripts,
 text, types, addresses and lock-time descriptions of its contents for every combination of the
 options, is serializable as JSON, and leaves the transaction unchanged.''',
 'inputs configurations', '''all 64 option combinations times input and output kinds, four coins, coinbase
 and not, truncated and odd scripts; lock times at each boundary in four time zones''',
 'tests render a few transactions', 'tx.py script.py address.py',
 ['Tx.to_json, TxInput.to_json, TxOutput.to_json @ bitcoinx/tx.py:182', 'Script.to_json @ bitcoinx/script.py:445'],
 'Exhaustive over the enumerated grid, against a reference rendering.', INP)

prop('C29', 'Equality and hashing of values are consistent and change nothing',
 '''Values of the library that represent keys, addresses, outputs, scripts, signatures, headers and
 transactions are equal exactly when they represent the same thing: keys the same secret or the same point
 (however encoded, and whatever the coin), outputs the same kind and content, scripts and signatures the
 same bytes (as any bytes-like value), headers and transactions the same fields.  Equality is symmetric
 and transitive, does not raise for values of other types, and equal values have equal hashes which using
 them never changes, so they can be used as keys in sets and dictionaries.''',
 'inputs histories', '''all ordered pairs of a menu of some 400 values of every kind, fresh
 and after using either or both; the whole menu in one set and one dictionary in every rotation''',
 'tests compare a few pairs', 'keys.py address.py script.py signature.py bip32.py coin.py',
 ['__eq__, __hash__ @ bitcoinx/keys.py:120', '__eq__, __hash__ @ bitcoinx/address.py:105'],
 'Exhaustive over all pairs of the menu.', INP)

prop('C30', 'A failing file operation is reported and costs nothing',
 '''If any file operation fails while the headers file is created, opened, grown, written or flushed, the error is
 reported, no header already held is lost, none is half added, and every observable is as before.
 The collection works again once the fault has gone, and so does reopening the file.''',
 'fault_sequences histories', '''every file operation of each of a set of histories failing with each error,
 and pairs of failures in successive attempts''',
 'no test injects a failing file system', 'chain.py util.py',
 ['_HeaderStorage._set_raw_header, open_or_create @ bitcoinx/chain.py:221', 'map_file @ bitcoinx/util.py'],
 'Exhaustive over the fault points; faults are injected where Python calls the file or mapping.', FAULT)

prop('C31', 'A private key shows its secret only when asked to',
 '''The text, representation and formatting of a private key or extended private key, alone or inside other values, and
 whatever is printed, logged or warned of, never contain the secret in any notation; nor do the errors
 that its operations raise, the errors of constructors refusing a secret given as bytes, or the public values made from it.  Only
 to_bytes, to_int, to_hex, to_WIF and to_extended_key_string give it.  This holds whatever was done with the key before.''',
 'inputs histories', '''every sequence of up to two operations on private and extended private keys of boundary secrets, then every way
 to turn keys, results and containers into text, and every failing operation''',
 'a test can look at one text of one key; a leak may need an earlier call, an error path or a notation', 'keys.py bip32.py',
 ['PrivateKey.__str__ @ bitcoinx/keys.py:128', 'BIP32PrivateKey.__repr__ @ bitcoinx/bip32.py:172'],
 '''Exhaustive over the sequences; the secret is sought in hexadecimal, decimal, bytes, base 58, base 64, WIF and extended
 key notation and as any twelve consecutive digits.  Text the caller gives to a decoder may be quoted back.''', INP)

prop('C32', 'Printed forms and error texts tell the truth',
 '''Every field named in the text of a header, chain, transaction, input, output, script, address, public key, derivation, extended key or
 signature hash type has the value shown, in the notation shown, also after the object was changed.  The
 errors that refuse a header show that header and what was required of it, and an error that names the value at fault
 names the one given.  Printing changes nothing.''',
 'inputs histories', '''headers with all combinations of boundary fields; all sequences of printing and changing fields; every chain and
 every refusal at every place of all small trees; all 256 signature hash types; grids of the other values''',
 'tests look at a few texts, mostly for one word', 'coin.py chain.py tx.py signature.py bip32.py',
 ['Header.__str__ @ bitcoinx/coin.py:70', 'IncorrectBits, InsufficientPoW @ bitcoinx/chain.py:59', 'Chain.desc @ bitcoinx/chain.py:163',
  'SigHash.to_string @ bitcoinx/signature.py:179', 'TxInput.__repr__, TxOutput.__repr__ @ bitcoinx/tx.py:278'],
 'Exhaustive over the enumerated grids and histories; fields are parsed back from the text.', INP)

prop('C33', 'Calls change nothing given to them, and results belong to the caller',
 '''No call changes the buffer, list, mapping or iterable it is given (beyond using up an iterator).  Keys, scripts, outputs,
 signatures, transactions and texts made from a mutable buffer are those of its contents at the call, whatever
 happens to the buffer later, and the same as from plain bytes or a list.  Changing a result (a transaction, a parsed header, a list, a JSON
 form) changes no other result of the same or another call.  The shared word lists, the live list of chains, and a header\'s
 own raw bytes are excepted.''',
 'inputs histories', '''every call that takes a buffer or a list times every kind of one, all ordered pairs of calls that share an argument,
 all ordered pairs of calls with the first result changed in place between them, and the observers of small collections of headers''',
 'tests pass fresh literals and look once; a shared or cached object shows only on the second use', 'keys.py script.py tx.py address.py bip32.py chain.py',
 ['Script.__init__ @ bitcoinx/script.py:303', 'Headers.connect @ bitcoinx/chain.py:430', 'Tx.to_json @ bitcoinx/tx.py:182',
  'P2MultiSig_Output @ bitcoinx/address.py:180'],
 'Exhaustive over the listed calls and kinds.', INP)

prop('C34', 'What a call gives depends on its arguments, not on earlier calls',
 '''What a call of a function, constructor or observer gives (its result, or the error it raises) depends only on its arguments,
 the contents of the object it is called on and the bytes drawn from the random source.  It does not depend on which calls were made before, of the same function or others,
 with equal, similar or other arguments, on the same object, an equal one or a new one.  Only calls that exist to change
 an object (edits of its fields, connecting new headers, setting stored headers) change what later calls on that object give.''',
 'histories', '''all sequences of two calls of one function (thorough: three) over two or more values of every argument and object, and all
 sequences of two calls of different functions, with objects kept and made anew''',
 'tests call a function with one value at a time and do not come back to an earlier one; kept results, defaults and shared state show only in sequences',
 'keys.py script.py tx.py address.py bip32.py mnemonic.py chain.py work.py coin.py',
 ['cachedproperty @ bitcoinx/util.py:45', 'Wordlists._cached_wordlist @ bitcoinx/mnemonic.py:81', '_coin_output_script_templates @ bitcoinx/script.py:292',
  'Headers._read_header @ bitcoinx/chain.py:367'],
 'Exhaustive over the alphabet of calls to that length; the result in a fresh process is the oracle, the other checks judge it.', INP)

if __name__ == '__main__':
    claimed = [p for p in P if os.path.exists(f'{HERE}/mc/{p["id"].lower()}.py')]
    with open(f'{HERE}/properties.jsonl', 'w') as f:
        for p in claimed:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                             hook_needed=None))) + '\n')
    checks = []
    for p in claimed:
        src = open(f'{HERE}/mc/{p["id"].lower()}.py').read()
        level = re.search(r"^LEVEL = '(\w+)'", src, re.M).group(1)
        checks.append(dict(property=p['id'], quick_cmd=f'./check {p["id"]} quick',
            thorough_cmd=f'./check {p["id"]} thorough', technique=p['tech'], level=level,
            level_note=p['note']))
    json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=[],
        notes='One program, mc/driver.py, runs every check in parallel processes; see DESIGN.md.'),
        open(f'{HERE}/MANIFEST.json', 'w'), indent=1)
    print(len(claimed), 'properties')
