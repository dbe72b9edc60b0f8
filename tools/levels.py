TLA = "TLA+ specification checked with TLC; "
HIST = TLA + "recorded histories of the real binary (random and drawn by TLC from the specification) judged by TLC against the specification"
FAULT = TLA + "executions of the real binary with every operation killed, failed or interleaved, judged at every instant by TLC"
TRUST = "Trusted: the TLA+ specification, TLC, the recorder (own zstd and patch decoders, directory snapshots, LD_PRELOAD shim, scripted S3 server)."
def note(s): return s + " " + TRUST
NOTES = {
 "C01": ("model_checking", HIST, note("Exhaustive for small history machines in TLC; on the code: thousands of random and TLC-drawn histories, bounded by number and size of the stores.")),
 "C05": ("model_checking", HIST, note("Planner checked exhaustively against all simple chains in TLC; small patch graphs and random upgrades replayed into the code.")),
 "C06": ("model_checking", HIST, note("Damaged patches of all kinds at all positions of chains; truncations at sampled (thorough: all) byte positions.")),
 "C07": ("model_checking", HIST, note("Random histories and contents of many shapes; patches are applied by an independent decoder.")),
 "C08": ("model_checking", HIST, note("Random histories with uploads to directories and S3, litter in both stores.")),
 "C17": ("model_checking", HIST, note("Random histories of all commands, failing ones included.")),
 "C18": ("model_checking", HIST, note("Random histories with litter of all kinds in both stores.")),
 "C19": ("model_checking", HIST, note("Random histories of adds, good and bad input, files of all kinds.")),
 "C02": ("model_checking", FAULT, note("Installs killed, failed and starved of space at every file operation from random starting points; current observed between any two operations. Process kill only, no power loss.")),
 "C03": ("model_checking", FAULT, note("All commands, every file operation killed, failed, shortened; every S3 transfer cut, dropped, refused; stores observed at every instant and used by later commands.")),
 "C04": ("model_checking", FAULT, note("Every command disturbed at every operation and run again; compared with the undisturbed run.")),
 "C09": ("model_checking", FAULT, note("Uploads with every transfer and file operation failing; retries of the client included.")),
 "C16": ("model_checking", FAULT, note("Two real processes scheduled operation by operation (sampled schedules, thorough: many more), one store on a directory; S3 interleavings are not scheduled.")),
 "C10": ("model_checking", HIST, note("Name grammar checked exhaustively for short names over the special characters; histories with awkward names replayed into the code, outside versions reserved in the design notes.")),
 "C11": ("model_checking", HIST, note("Selection rule checked exhaustively for small tag sets in TLC; thousands of random repositories on the code.")),
 "C12": ("model_checking", HIST, note("Random repositories with missing, damaged, unreadable and known releases.")),
 "C13": ("model_checking", TLA + "archives the real binary makes of copies of random trees, judged by TLC against the specification of packages", note("Walking orders checked exhaustively for small trees in TLC; hundreds of random trees packaged by the real binary from many places and in many ways; regular files only, paths the tar library can carry.")),
 "C14": ("model_checking", FAULT.replace("with every operation killed, failed or interleaved", "against a scripted S3 server which damages what it sends"), note("Clients and lines checked exhaustively for short bodies in TLC; on the code: every fetched object of every kind of command damaged in many ways, singly and all at once. Checksums in multipart form cannot be compared by the program and are not sent.")),
 "C15": ("model_checking", TLA + "every history is run with an S3 remote and with a directory, and TLC judges both recordings step by step", note("Keys, prefixes, delimiters and pages checked exhaustively for small buckets in TLC; hundreds of random histories with many kinds of paths and of objects around them. Paths which a URL has to escape are left out.")),
}
