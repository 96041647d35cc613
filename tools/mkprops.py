#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SAVE="src/calculator/program.rs"; CONV="src/commands/convert.rs"; EDIT="src/commands/edit/mod.rs"
NOIO="No existing test runs the binary, writes a file or injects a fault; they call the library on shipped samples. "

prop("C01","A save is atomic: the output path never holds a torn or partial file",
 "Whenever a command saves to an output path, then at every instant - including after the process is killed, the machine loses power, or a read, write or other system call fails at any moment - that path holds either what it held before (its complete previous content, or no file) or the complete new content. This applies to new outputs, confirmed overwrites, in-place edits and each output of a mass conversion.",
 ["crash_points","fault_sequences","inputs"],
 "every command that writes, every kill point between or inside its system calls, every power-loss state reachable from there, every single or repeated I/O error, short write, full disk or broken terminal pipe",
 NOIO+"A crash between removing the old file and finishing the new one is a window of microseconds no sampled run lands in.",
 [SAVE,EDIT,CONV],[("save to a path: confirm, write, replace",SAVE+" Program::save_to / write_to_file")],["file system state after every mutating system call"],
 [("file at the output path","what the user owns","file system")])

prop("C02","Nothing existing is overwritten, and no directory made, without a yes",
 "If a file already exists at a path a command is about to write, it is left byte for byte as it was unless the user answers exactly y or Y to the question about it; any other answer, an empty answer, end of input, an unreadable terminal, or failure to find out whether the file exists counts as no. Likewise a missing output directory is created only after such a yes, and each existing file needs its own yes.",
 ["inputs","fault_sequences","histories"],
 "every writing command, every terminal input (any bytes, any chunking, end of input or error at any point), every I/O failure, any number of colliding outputs in a mass conversion",
 NOIO+"The prompt reads the real terminal, so no test reaches it at all.",
 [SAVE,CONV],[("existence check and [y/N] prompt",SAVE+" Program::save_to"),("output directory prompt",CONV+" convert_command")],["file system state versus answers consumed from the terminal"])

prop("C03","--delete-old never loses the program: the old file goes only after the new",
 "With --delete-old, at every instant - through any crash, power loss or failed system call - at least one of the old file or the complete new file exists; the old file is removed only once the new one is completely saved. This holds as well when the new path names the old file in another spelling or through a link: then the edited program still exists afterwards; and when the two paths are on different disks, which lose power at different points of their own histories.",
 ["crash_points","fault_sequences","inputs"],
 "rename, comment, lock, unlock, archive and unarchive with --new-file and --delete-old; every kill point, power loss and I/O failure; new paths that are distinct, identical, respelled, hard-linked or symlinked to the input; every answer to the overwrite question",
 NOIO+"Aliased paths and failures between save and delete are never exercised.",
 [EDIT,SAVE],[("save, then remove the input",EDIT+" save_edits")],["file system state after every mutating system call"])

prop("C04","Success is reported exactly when the work was done",
 "Exit status 0 of a save the user did not decline, and any message saying that a file was saved or a field was set, mean that the named file holds the complete result (and, with --delete-old, that the old one is gone); if any system call the save depends on fails, the command says so and exits non-zero (of a mass conversion: unless the user chose to skip that file). So it does for a save that cannot be done: an input that is missing or of the wrong kind, an extension, mode or command that does not exist, an invalid edit, an option without the one it needs, a conversion asked for neither output nor preview. Conversely, when nothing fails the command reports success, whatever characters the names, comments and paths contain.",
 ["fault_sequences","inputs"],
 "every writing command, every failing or partially completing system call (including write-back errors that only appear when data is forced to disk), every printable or odd character in program names, comments and file names",
 NOIO+"Exit codes and messages of the binary are untested.",
 [SAVE,EDIT,CONV,"src/styles.rs","src/calculator/errors.rs"],[("error propagation from write to exit status",SAVE+" save_to, write_to_file; errors.rs exit"),("styled success message","src/styles.rs prints!")],["exit status","stdout messages","file system state"])

prop("C05","Results depend on the inputs only, not on chance or the operating system",
 "Running the same command on the same files with the same answers gives byte-identical output files, the same printed text and the same exit status every time: it does not matter how hash tables are randomised, in which order a directory lists its entries, how reads and writes are split up or interrupted, or what the process id, the clock, the environment variables and unrelated files nearby are. This holds in every display mode (accessible, pretty, ti), every encode mode (min, max, smart), for token search and for mass conversion.",
 ["schedules","configurations","inputs"],
 "all hash seeds, directory orders (including entries appearing while a directory is being listed), splits of reads and writes, interruptions, process ids; all commands and modes; texts containing ambiguous tokens",
 "A test sees one hash seed per process and compares it with a stored answer for accessible text only; ambiguous tokens and listing order are never varied.",
 ["src/calculator/tokens/mod.rs","src/calculator/file/encode.rs","src/commands/search.rs",CONV],[("longest/shortest match over a hash map","src/calculator/tokens/mod.rs Map::get_longest_matching_token / get_shortest_matching_token"),("directory listing",CONV+" convert_command")],["output files","stdout","exit status"])

prop("C06","Every calculator file written is internally consistent",
 "Through any history of successful, failed, declined or crashed commands on sound inputs, every 8xp, 83p or 82p file the tool writes is well formed: all sections have their full fixed sizes, every length field and its copy agrees with the body actually present, name and comment are zero padded, and the checksum is the low 16 bits of the sum of all metadata and body bytes. A program too large for the format's 16-bit lengths is refused instead of written with wrapped lengths.",
 ["histories","inputs","fault_sequences"],
 "every sequence of convert and edit commands over calculator, text and JSON files, all models, types, destinations, names, comments and body sizes from empty to over 65535 bytes, with faults and crashes in between",
 "Tests check lengths of files they only load; no test saves a file, edits and then checks a checksum, or uses an 83p/82p file or a body near the limit.",
 ["src/calculator/file/from_txt.rs","src/calculator/file/from_8xp.rs",SAVE,EDIT],[("header, metadata and checksum construction","from_txt.rs create_from_txt; from_8xp.rs create_from_8xp"),("in-place byte edits",SAVE+" Header::comment, Metadata::rename/lock/unlock/archive/unarchive")],["bytes of every file written"])

prop("C07","Edits change only their field, and the last acknowledged edit wins",
 "After any history of rename, comment, lock, unlock, archive and unarchive, a calculator file equals the original with each field set by the last edit that was acknowledged for it - names upper-cased - and every other byte unchanged except the checksum; edits that failed or were declined contribute nothing, and invalid ones (name over 8 letters or not alphabetic, comment over 42 bytes) are refused, valid ones never. An edit with --new-file leaves the input unchanged and puts the edited program in the new file.",
 ["histories","fault_sequences","inputs"],
 "all sequences of edits, valid or not, in place or to new files, over 8xp and (rename, comment, lock, unlock) 83p/82p inputs with arbitrary field values, interleaved with declined prompts, I/O failures and kills",
 "Tests apply one edit in memory to one sample and look at one slice of bytes; sequences, saved files and failures are not covered.",
 [SAVE,"src/commands/edit/rename.rs","src/commands/edit/comment.rs","src/commands/edit/lock.rs","src/commands/edit/unlock.rs","src/commands/edit/archive.rs","src/commands/edit/unarchive.rs",EDIT],[("byte splices at fixed offsets",SAVE+" Header::comment, Metadata::*"),("save_edits",EDIT)],["bytes of the edited files"])

prop("C08","Conversion histories conserve the program",
 "Through any history of successful conversions between calculator, text and JSON files, interleaved with failed or crashed ones, a program keeps its name, file type, destination and model (as far as the calculator format can express it); text converted to a calculator file and back (accessible tokens) is the same text, a calculator file this tool encoded from text converts to text and back to the identical body, and JSON gives back the exact bytes it was made from. Text and JSON files say truthfully in which display mode their text is written, every field of a JSON file agrees with the bytes in it, and what details and preview print agrees with the stored file.",
 ["histories","fault_sequences","inputs"],
 "all chains of convert over 8xp/83p/82p/txt/json, all tokens of every supported model, all 25 models, three encode modes, three display modes, 0 to 64K bodies, with failed and crashed conversions in between",
 "The one conversion test compares nine stored pairs in one mode and never writes a file, goes through JSON, uses another model, or chains conversions.",
 ["src/calculator/file/encode.rs","src/calculator/file/decode.rs","src/calculator/file/from_txt.rs","src/calculator/file/from_8xp.rs",SAVE,"src/calculator/models.rs","src/calculator/tokens/mod.rs","src/commands/details.rs"],[("tokeniser and detokeniser","file/encode.rs, file/decode.rs"),("text and JSON forms",SAVE+" save_to, load_from_json; file/from_txt.rs"),("model identification","models.rs from_byte / from_model / from_string")],["files after each step","stdout of details and convert -p/-c"])

prop("C09","Damaged input is refused cleanly",
 "Whatever bytes an input file holds - truncated at any point, bits flipped, garbage, empty, another format under a known extension - and whatever read error occurs, each command either does its work or prints a diagnostic and exits with status 1; it never crashes, and when it refuses it creates and changes nothing. Damage reachable through a directory being mass converted is included. Nor does any combination of command-line arguments make a command crash.",
 ["inputs","fault_sequences","crash_points"],
 "all byte strings as calculator, text or JSON input, in particular every truncation (torn write) and single-byte corruption of valid files, names that are not valid text, read errors at every system call; every command that reads a file",
 "Tests load only intact samples.",
 ["src/calculator/file/from_8xp.rs","src/calculator/file/from_txt.rs","src/calculator/file/decode.rs",SAVE,CONV],[("section splitting and field decoding","file/from_8xp.rs create_from_8xp"),("line parsing","file/from_txt.rs"),("JSON loading",SAVE+" load_from_json")],["exit status","stderr","file system state"])

prop("C10","Mass conversion writes only inside the output directory",
 "A mass conversion creates, changes or removes nothing outside the output directory, whatever the program names stored in (possibly damaged or hostile) input files are: empty, dots, absolute or relative paths, separators, or names already in use as files, directories or links. Each output is named after the program with exactly the extension added.",
 ["inputs","fault_sequences"],
 "all program names the calculator and JSON formats can hold, all three input kinds, output directory given as relative, absolute, with trailing slash or through a link, faults at any system call",
 "No test runs a mass conversion.",
 [CONV],[("output path from program name",CONV+" convert_command")],["file system tree outside the output directory","names inside it"])

prop("C11","Mass conversion converts every program once, like single conversions",
 "A mass conversion of a directory of sound inputs with distinct program names produces for every calculator file a text file, for every text file a calculator file and for every JSON file both, each byte-identical to what converting that file alone gives; it ignores other files and leaves inputs unchanged. This holds for any listing order, when input and output directory are the same, and when saving some outputs fails or is declined and the user chooses to skip: the others are still converted.",
 ["inputs","schedules","fault_sequences"],
 "all directories with any mix of inputs and unrelated files, any listing order including entries that appear while listing, input and output directory equal or different, pre-existing outputs with any answers, save failures of individual outputs",
 "No test runs a mass conversion; ordering and skip paths depend on the file system and the terminal.",
 [CONV],[("per-entry loop",CONV+" convert_command")],["output directory contents","input directory contents"])

prop("C12","Commands touch only the files they were told to write",
 "A command changes, creates or removes no file other than the output it was told to write (the input itself for an in-place edit, the input for --delete-old); the conversion source and all other files keep their exact bytes under any failure, and details, search, models, help, version and conversions without an output path change nothing at all. Permissions stay as they are, those of a replaced file included. --delete-old without --new-file, and invalid arguments, change nothing.",
 ["inputs","fault_sequences","crash_points"],
 "all commands and argument combinations, any surrounding files (including similarly named and temporary-looking ones, links and directories), any failure; after a kill or an undeletable temporary file at most a clearly temporary extra file may remain",
 NOIO+"Nothing observes the rest of the directory.",
 ["src/main.rs","src/cli.rs",SAVE,EDIT,CONV],[("argument dispatch","src/main.rs, src/cli.rs"),("save and delete",SAVE+" save_to; "+EDIT+" save_edits")],["whole file system tree"])

prop("C13","Every command terminates, whatever the terminal and files answer",
 "Every command finishes within a bounded number of steps for every input file, argument and sequence of terminal answers: at end of input, with unreadable, garbage or repeated answers, interrupted calls, full disks or persistent errors it gives up instead of retrying forever. The bound grows at most proportionally with the size of the inputs and answers. Working until no memory is left is not finishing.",
 ["inputs","fault_sequences","schedules"],
 "all commands, all finite terminal inputs followed by end of input or error, persistent failure of any class of system call, any number of interruptions up to a bound, texts in all encode and display modes including ambiguous and unknown tokens",
 NOIO+"Non-termination needs end-of-input or persistent errors that no test supplies.",
 [SAVE,CONV,"src/calculator/file/encode.rs"],[("prompts",SAVE+" save_to; "+CONV),("token consumption loop","file/encode.rs encode")],["number of system calls","CPU time"])

prop("C14","Concurrent invocations do not corrupt each other",
 "When several invocations run at the same time, in any interleaving, ones that write different outputs (even in the same directory, which they may have to create, or from the same input) each end as if run alone, and ones that write the same output leave a complete file that one of them wrote. An invocation that reads a file, or mass converts a directory holding a file, that another one is replacing sees the old or the new version, never a mixture.",
 ["schedules","inputs"],
 "two or three invocations of any commands on shared or separate files in shared directories, all interleavings of their system calls, with one of them possibly killed",
 "Tests run one thing at a time and never write.",
 [SAVE,EDIT,CONV],[("save to a path",SAVE+" save_to")],["final file system state","exit status of each invocation"])

prop("C15","After any crash or failure, repeating the command works",
 "After any sequence of killed or failed commands, once faults stop, running the same command again (answering yes) succeeds and gives exactly the files it would have given had nothing gone wrong before; leftovers of earlier attempts never block it, get used as data or need cleaning up by hand.",
 ["crash_points","fault_sequences","histories"],
 "any writing command repeated after one or more attempts killed or failing at any system call, including with the same process id, then one undisturbed attempt",
 NOIO+"Restart after a crash is never tested.",
 [SAVE,EDIT,CONV],[("save to a path",SAVE+" save_to"),("output directory creation",CONV+" convert_command")],["exit status and files of the undisturbed attempt"])

prop("C16","A failed save leaves everything as it was",
 "If a save fails and the command lives on to report it - unsupported or missing output extension, full disk, I/O error, missing permission, error forcing data to disk - then the output path holds exactly what it held before and no partial, empty or temporary file stays behind; the input is untouched as well. In a mass conversion this holds for each failed output while the successful ones stay.",
 ["fault_sequences","inputs"],
 "every writing command, output paths with any extension, existing or not, every system call failing once or persistently with any plausible error, short writes before the failure, limited disk space; only if removing its own temporary file fails too may that file stay",
 NOIO+"Failing saves are never exercised.",
 [SAVE,EDIT,CONV],[("order of extension check, confirmation, write and replace",SAVE+" save_to")],["whole file system tree before and after"])

prop("C21","What a command prints arrives whole, or the command does not claim success",
 "When the terminal, pipe or file that receives the printed text accepts only part of it or fails (closed pipe, full disk, I/O error), the command never exits with status 0 having delivered less than the complete text that belongs there - details, previews, content dumps, searches, help and the messages of saves alike - and what does arrive is the exact beginning of that text, neither garbled, reordered nor repeated.",
 ["fault_sequences","inputs"],
 "every command, its output failing once or persistently at any write, cut short before the failure, split into pieces or interrupted, with and without failing reads and a failing error stream; not an output that was closed before the start, which counts as not wanted",
 "Tests never run the commands, and no test can make a write to the terminal fail half way.",
 ["src/main.rs","src/cli.rs","src/styles.rs","src/commands/details.rs","src/commands/convert.rs","src/commands/search.rs","src/commands/models.rs"],
 [("printing macros","src/styles.rs prints!; println! throughout"),("byte dump without line ends","src/commands/convert.rs print_bytes")],["bytes accepted by stdout","exit status"])
prop("C22","A save reported as done survives a power loss",
 "Once a command has ended with exit status 0, or has announced an output as saved and goes on with others, the files saved are still there with their complete new content whenever the power fails from then on, for new outputs, overwritten ones, in-place edits and every output of a mass conversion alike, on whichever file system each output lies. The one exception is a system that refuses to force the output's directory to the disk.",
 ["crash_points","fault_sequences","inputs"],
 "every command that writes, every later instant of a power loss and every choice of which names and data not yet forced to the disk are lost, per file system; with failing, short and interrupted calls during the save",
 NOIO+"Data that is in the cache but not on the disk looks saved to every test.",
 [SAVE,EDIT,CONV],[("forcing content and name to the disk",SAVE+" replace_file, sync_parent_directory")],["disk states after a power loss following exit status 0"])
prop("C17","Token tables are filtered by model and OS version as the token sheet says",
 "For every supported model, exactly the tokens whose since/until range contains that model's latest OS are known when encoding and decoding for it.",
 ["inputs","configurations"],"all 25 models, all token entries",
 "Tests only check that tables load.",
 ["src/calculator/tokens/mod.rs","src/calculator/models.rs"],[("version ordering and filter","src/calculator/tokens/mod.rs OsVersion::cmp, load_tokens")],["accepted tokens per model"])
prop("C18","Encode modes tokenise text by the documented munching rules",
 "max takes the longest token at each position, min the shortest, and smart the longest outside strings and program or list names and single characters inside them.",
 ["inputs"],"all texts and display modes",
 "Nine stored programs in smart mode only.",
 ["src/calculator/file/encode.rs"],[("EncodeState","src/calculator/file/encode.rs")],["encoded body"])
prop("C19","Search finds the definition of the token it is given",
 "For every token with a definition, searching it by accessible text, pretty text or byte value prints that token's syntax and description; unknown tokens are reported as such.",
 ["inputs"],"all tokens and the three search types",
 "Tests only check that definitions load.",
 ["src/commands/search.rs","src/calculator/tokens/mod.rs"],[("search","src/commands/search.rs")],["stdout"])
prop("C20","Command-line arguments are interpreted as the help text says",
 "Every option is found by its long and short form, required values are demanded, defaults apply, and prerequisites between options are enforced.",
 ["inputs"],"all argument vectors",
 "No test parses arguments.",
 ["src/cli.rs","src/main.rs"],[("argument lookup","src/cli.rs")],["behaviour of the command"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False)+"\n")
