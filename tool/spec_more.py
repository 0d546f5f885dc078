"""The remaining properties (see spec.py): common packages, and what is not claimed."""
from spec_base import *  # noqa

MORE = [
prop("C25", "A configuration file is loaded completely, or refused with the reason",
     "Loading a JSON file while others replace, remove or damage it either gives the value one state of the file during the load stands for, or an error that names the file and, for a malformed file, the line; a missing file is reported as missing, an unreadable one never as malformed. "
     "A value loaded from a missing, unreadable or malformed file is left as it was, a file is said not to exist only if it did not, and no load leaks a descriptor.",
     [S, C, F, I], "every interleaving of loads with writers that replace, remove or damage the file, short and interrupted reads, I/O and open errors, and crashes of the writer at any point over several incarnations",
     "No test loads a file; torn, replaced and unreadable files and the crash points that leave them need a disk under control.",
     ["common/test_utils.go", "common/path.go"],
     [("whole file, then parse", "common/test_utils.go LoadJSON"), ("line of a syntax error", "common/test_utils.go findLine"), ("existence", "common/path.go FileExist")],
     "Real os.ReadFile and encoding/json over the simulated disk, which records every state the file was in; each load must fit one that was in force during it.",
     observe=["result and error of LoadJSON, FileExist"]),
prop("C26", "A printed age is the true age, whatever the wall clock does meanwhile",
     "The printed age of a time is the time passed since it, cut to the three largest whole units, never rounded up, and zero for anything younger than a second or in the future (beyond the 292 years a duration can hold, those 292 years). "
     "Jumps of the wall clock do not change the age of times that carry a monotonic reading, and count fully for those that do not.",
     [S, H], "every sequence of passing time, wall-clock jumps forward and back, and times taken locally, restored from text or moved between zones",
     "There is no test of ages, and none can make the clock jump.",
     ["common/format.go"],
     [("elapsed time", "common/format.go PrettyAge.String"), ("unit list", "common/format.go ageUnits")],
     "Wall and monotonic clocks are simulated separately; the printed text is parsed and compared with the interval of possible ages during the call."),
prop("C27", "Values saved as JSON are loaded as saved, or refused and left as they were",
     "Hashes, addresses (casing kept where promised), byte strings and integers saved as JSON by one process, as values, keys or elements, stand in the file in their defined form and are loaded by the next with the same value. "
     "Text that is not of the defined form (missing prefix, odd or wrong length, bad digit, leading zero, too large, not a string) and torn files are refused, and the refused field is left as it was. "
     "Texts once handed out, and values once read, do not change when others encode and decode or when a buffer is used again.",
     [S, C, F, I], "every interleaving of saving, loading and encoding clients, crash point of the saver, disk fault, edit of the file and value",
     "The tests decode a table of texts in memory, one at a time.",
     ["common/types.go", "common/hexutil/json.go", "common/math/big.go", "common/test_utils.go"],
     [("fixed-size text", "common/hexutil/json.go UnmarshalFixedText, UnmarshalFixedJSON"), ("quantities", "common/hexutil/json.go Big/Uint64/Uint UnmarshalText"), ("mixed case", "common/types.go MixedcaseAddress"), ("256-bit integers", "common/math/big.go HexOrDecimal256, Decimal256")],
     "A saver writes over the simulated disk while others edit, tear and load the file in later incarnations; an independent reader of the file says what each field stands for."),
prop("C28", "Shared bytes, hashes and addresses give every caller the defined result",
     "Hex, padding, trimming and conversion of byte strings, quantities, hashes and addresses, their checksums, formats, database and GraphQL forms, and printed sizes and durations give each caller the defined result, and malformed hex is refused with an error, however many goroutines work on the same inputs. "
     "No input is changed, not even in the spare room behind a slice, and a result belongs to its caller: nobody else's work changes it, and changing it changes nothing else (a padding of sufficient length and a trimming are the input itself, as documented).",
     [S, I], "every interleaving of callers on shared inputs, every input, and callers that overwrite what they were given",
     "The tests call each function alone on a few inputs and never look at an input or result again.",
     ["common/types.go", "common/bytes.go", "common/hexutil/hexutil.go", "common/size.go", "common/format.go"],
     [("checksum", "common/types.go checksumHex"), ("hex", "common/hexutil/hexutil.go"), ("padding and trimming", "common/bytes.go"), ("formats", "common/types.go Format")],
     "Clients call the real functions on shared inputs under the seeded scheduler, look at the results only after a stall, compare them with independent definitions and then overwrite them."),
prop("C29", "256-bit arithmetic on shared integers is exact and leaves them as they are",
     "Powers, two's-complement readings, padded and partial byte encodings, single bytes, lowest set bit, larger and smaller, and parsing agree with their mathematical definitions modulo 2^256, and numbers that are malformed or need more than 256 bits are refused. "
     "No argument is changed except by the two operations documented as destructive, so goroutines may share integers, and neither later calls nor changes to one result affect another or a shared constant.",
     [S, I], "every interleaving of callers on shared integers, and every integer, including those at powers of two",
     "The package has no tests.",
     ["common/math/big.go", "common/big.go"],
     [("power", "common/math/big.go Exp"), ("byte encodings", "common/math/big.go PaddedBigBytes, ReadBits, Byte"), ("two's complement", "common/math/big.go U256, S256"), ("parsing", "common/math/big.go ParseBig256")],
     "As C28: shared integers, late comparison with independent definitions, and overwritten results."),
prop("C30", "A message turned into words comes back from the words",
     "Any message of whole 32-bit words in hexadecimal becomes three words of the list per 32 bits, and those words give the message back, in lower case; different messages have different words. "
     "This holds for goroutines working at the same time over the one list, each of which owns the words it was given.",
     [S, I], "every message, and every interleaving of callers that overwrite their words",
     "One message of one length is tested.",
     ["crypto/mnemonic.go", "crypto/mnemonic_words.go"],
     [("to words", "crypto/mnemonic.go MnemonicEncode"), ("from words", "crypto/mnemonic.go MnemonicDecode"), ("the list", "crypto/mnemonic_words.go MnemonicWords")],
     "Clients encode, stall, decode, compare and overwrite under the seeded scheduler; the word list is compared at the end."),
prop("C31", "Compiler output is turned into all its contracts, or refused",
     "The combined JSON output of the contract compiler, of the format before version 0.8 or after, gives one contract per entry with every part of that entry and the versions and options passed. "
     "Output that is torn by a crash of the compiler, or has a part that is not what the format says, is refused with an error and not turned into contracts; the bytes parsed are not kept or changed.",
     [S, C, F, I], "every output, crash point of the process writing it, disk fault and interleaving of writers and parsers",
     "The package has no tests.",
     ["common/compiler/solidity.go", "common/compiler/helpers.go"],
     [("format before 0.8", "common/compiler/solidity.go ParseCombinedJSON"), ("format since 0.8", "common/compiler/solidity.go ParseCombinedJSONV8")],
     "A simulated compiler process writes generated outputs to the simulated disk and is killed; parsers read what is there, and the contracts are compared with what the output was made from."),
prop("C32", "Generated serialisation code writes and reads what the struct type says",
     "For every supported struct type the generated methods compile, write the type's serialised form (fields in order, trailing zero-valued optional fields left out, nil pointers as their tags say) and read back what they wrote; a reader of another version of the type, a damaged message, or a failing reader or writer gives exactly the defined value or an error, and a failed read leaves the object as it was. "
     "An unsupported type is refused with an error naming the field. "
     "Generators at work at the same time, and one generator used repeatedly, give the same code.",
     [S, F, I], "every struct type, every value, interleaving of generators, writers and readers, message lost, repeated, overtaken, cut or changed on its way, and point at which a reader or writer fails",
     "The package's tests need a package that does not exist in this repository, so none of them runs.",
     ["rlp/rlpgen/gen.go", "rlp/rlpgen/types.go", "rlp/rlpgen/main.go"],
     [("operations per type", "rlp/rlpgen/gen.go makeOp"), ("optional fields", "rlp/rlpgen/gen.go writeOptionalFields, decodeOptionalFields"), ("zero values", "rlp/rlpgen/types.go nonZeroCheck"), ("looking a type up", "rlp/rlpgen/main.go lookupType")],
     "Peers in one simulation generate code for random programs with the real generator; it is type-checked with its program, run by an interpreter over an rlp package of the harness's own, and the messages cross a lossy network to readers of other versions, compared with a reference codec.",
     observe=["generated source text", "messages written", "values and errors read"]),
prop("C33", "The generator command writes the whole code, or fails and says why",
     "When the generator command ends successfully, its output (the file named, or standard output) holds exactly the whole code for the type and methods asked for by its flags, marked as generated and left out of the program when generating again, so that an earlier whole output, even an outdated one, has no influence on the next. "
     "When it cannot understand its flags, load the program, find or support the type, or write its output, it fails and says why, and unless writing itself failed or was cut short, the output stays as it was; nothing else is written or removed.",
     [S, F, I], "every command line, history of edits to the program and earlier outputs, disk fault while reading or writing, and moment at which the command is killed or the program edited",
     "The command has no test: it needs the go command, and a package that does not exist in this repository.",
     ["rlp/rlpgen/main.go"],
     [("flags, writing and status", "rlp/rlpgen/main.go main"), ("loading, refusing, marking", "rlp/rlpgen/main.go Config.process")],
     "The real command runs as a simulated process on the simulated disk, its package loader replaced by one that reads that disk and honours build constraints; it is run repeatedly between edits, disk faults and kills, and its outputs, messages and status are compared with what each state of the program calls for.",
     observe=["exit status", "files and standard output", "messages on standard error"]),
prop("C45", "Struct tags for the serialisation generator are interpreted as documented",
     "Each combination of serialisation tags on a struct's fields is either accepted, giving exactly the exported fields not ignored, in order, with the documented meaning, or refused with an error that names the field and the tag. "
     "A field list may be shared: no caller changes it, and what a caller was given stays as it is whatever others do.",
     [S, I], "every field list, and every interleaving of callers on shared lists that overwrite what they were given",
     "The package has no tests.",
     ["rlp/internal/rlpstruct/rlpstruct.go"],
     [("which fields", "rlp/internal/rlpstruct/rlpstruct.go ProcessFields"), ("tag parsing", "rlp/internal/rlpstruct/rlpstruct.go parseTag"), ("kind of nil", "rlp/internal/rlpstruct/rlpstruct.go DefaultNilValue")],
     "As C28: shared field lists, late comparison with the documented rules, and overwritten results."),
]

NA = [
prop("C47", "Remote calls are answered exactly once, in order of their batch",
     "Every well-formed request, alone or in a batch, is answered exactly once under its identifier, and notifications are not answered.",
     [S, F, I], "every connection, batch and interleaving", "The package has no tests here.",
     ["rpc/json.go", "rpc/handler.go"], [("message framing", "rpc/json.go")],
     "The package is an unfinished fragment that does not compile at this commit (syntax error: unexpected EOF in json.go), so there is no behaviour to simulate."),
]
