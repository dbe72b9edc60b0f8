import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    P.append(d)
ST=[("local store","directory of NAME.tar.zst builds, FROM-TO.patch.zst patches and the `current` link","src/storage/mod.rs"),
    ("remote store","directory or S3 prefix holding the published builds and patches","src/storage/mod.rs"),
    ("index","graph of known builds (nodes) and patches (edges), each with its local and remote entry","src/index/graph.rs")]
p("C01","An installed build is exactly the requested one",
 "After a successful install of version V, the `current` link of the local store resolves to V's build file inside that store, and its unpacked bytes are exactly V's published content. This holds whichever route produced the file (already cached, downloaded, rebuilt through any chain of patches, or downloaded after patches failed), whatever else the two stores hold, and for directory and S3 remotes alike. Installing a version that either store has succeeds, unless its file cannot be had; installing one that neither store has fails.",
 ["inputs","histories","configurations"],
 "every content of the two stores (which builds and patches exist where, their sizes, contents and damage to patches), every currently installed version, every target and every history of earlier commands by several machines sharing the remote",
 "Tests install a handful of hand-made stores with at most two patches, and check that files exist, not what they contain; content, chains in both directions, mixed local/remote availability and histories are not sampled.",
 ["src/lib.rs","src/index.rs","src/index/graph.rs","src/apply_patch.rs","src/storage/mod.rs"],
 [("install","src/lib.rs: install"),("upgrade_to_build / add_build_from_patch / get_build","src/index.rs"),("apply_patch","src/apply_patch.rs"),("find_upgrade_path","src/index/graph.rs")],ST,
 ["exit status of `artefacta install`","files in the local store","target of the current link"])
p("C02","The current link is never lost or left broken",
 "At every instant of an install, including after the process is killed or any file operation fails at any point, an existing `current` link resolves to a complete build: the previously installed one or the newly requested one. An install that reports failure leaves `current` as it was. When `current` dangles because its build was deleted from the cache, installing an available version, the same one included, repairs it.",
 ["crash_points","fault_sequences","inputs"],
 "every prefix of the file operations of an install, every single failing operation, every prior state of the link (absent, valid, dangling)",
 "Tests only look at the link after an undisturbed run; they never stop the process between two file operations, fail one, or start from a dangling link.",
 ["src/lib.rs","src/storage/mod.rs"],
 [("switching of the symlink","src/lib.rs: install"),("directory listing skips symlinks","src/storage/mod.rs: list_files")],
 [("current","symlink in the local store to the installed build","src/lib.rs: install")],
 ["symlink and rename operations on the local store"])
p("C03","Files in the stores are all-or-nothing",
 "Whenever a file with a build or patch name is visible in the local store or in a directory or S3 remote, its content is complete: at every instant of every command, and after the process is killed or any file operation or transfer fails at any point. Leftovers of interrupted writes are never taken for builds or patches by later commands.",
 ["crash_points","fault_sequences","inputs"],
 "every prefix of the file operations of every command, writes cut short included, and every single failing operation",
 "Tests run commands to completion without faults; intermediate states of the directories and states after a kill or a full disk are never looked at (only PartialFile's drop is, in isolation).",
 ["src/partial_file.rs","src/storage/mod.rs","src/index.rs","src/index/graph.rs"],
 [("PartialFile: write to a hidden name, rename when finished, delete on drop","src/partial_file.rs"),("add_file","src/storage/mod.rs"),("calculate_patch, add_build_from_patch","src/index.rs"),("update_from_file_list filters names and sizes","src/index/graph.rs")],ST,
 ["directory contents before every mutating system call"])
p("C04","Interrupted commands can simply be rerun",
 "After any command is killed, or fails because of a file operation or transfer error, at any point, running the same command again without disturbance succeeds whenever the undisturbed command would have, and leaves the same builds, patches and `current` in both stores as an undisturbed run.",
 ["crash_points","fault_sequences","histories"],
 "every command, every start state, every point of interruption, followed by a rerun",
 "No test interrupts a command, so no test reruns one.",
 ["src/index.rs","src/lib.rs","src/storage/mod.rs","src/partial_file.rs","src/cli.rs"],
 [("index is rebuilt from the stores by every command","src/index.rs: Index::new"),("partial files are invisible to the index","src/index/graph.rs: update_from_file_list"),("push uploads what the remote lacks","src/index.rs: push")],ST,
 ["state after rerun compared with state after an undisturbed run"])
p("C05","Upgrades take the cheapest route and reuse the cache",
 "Install upgrades by patches exactly when some chain of known patches from the installed version to the target is smaller in total than the target's build, and then takes a chain of minimal total size; otherwise it takes the full build. Only files which that route needs and the local store lacks are read from the remote (plus the full build when a patch of the route turns out unusable). A build cached locally is used as it is: it is neither fetched nor rebuilt again.",
 ["inputs","histories","configurations"],
 "every graph of builds and patches over the two stores with every assignment of sizes and locations, every installed version and every target",
 "Two unit tests check the choice on one three-node chain whose version names happen to sort in upgrade order; which files are transferred is never observed.",
 ["src/index/graph.rs","src/index.rs"],
 [("patches_needed (shortest path), find_upgrade_path (cost against build size)","src/index/graph.rs"),("upgrade_to_build skips what is cached","src/index.rs"),("get_build / get_patch look locally first","src/index.rs")],ST,
 ["open() of files in a directory remote","GET requests to an S3 remote","which local files changed"])
p("C06","Unusable patches never stop or corrupt an upgrade",
 "If any patch on the chosen route is truncated at any byte, is not a patch at all, or cannot be read, the upgrade still succeeds with the full target build whenever that can be had, and the installed content is right. No build with wrong content is left in the local store under any version's name by the failed attempt.",
 ["inputs","fault_sequences"],
 "every position of the bad patch in the chain, every truncation point, every kind of damage, patches kept locally or remotely",
 "One test damages the only patch of a one-step upgrade with random bytes and checks that the link exists, not what it points at; truncations and later positions in a chain are not tried.",
 ["src/index.rs","src/apply_patch.rs"],
 [("fallback to the direct build","src/index.rs: upgrade_to_build"),("decoding of patches","src/apply_patch.rs"),("unfinished build file is dropped","src/partial_file.rs")],ST,
 ["exit status, content of every build file in the local store"])
p("C07","Created patches are exact",
 "Whenever a command creates a patch from version A to version B, applying it to A's unpacked content yields B's unpacked content byte for byte, and it is stored in the local store under the name that identifies exactly the ordered pair (A, B). A patch that is already known is reused: it is neither computed again nor altered. A patch from a version to itself is refused by every command that can create patches, and never stored.",
 ["inputs","histories"],
 "every pair of build contents, every combination of where the builds and the patch already are, every command that creates patches (create-patch, add or add-package with a base version, auto-patch)",
 "Tests check that a patch file appears for random unrelated contents; one round trip is tested with the library's own diff call, not with the file the command writes.",
 ["src/index.rs","src/lib.rs","src/cli.rs","src/index/patch.rs"],
 [("calculate_patch","src/index.rs"),("create_patch refuses equal versions","src/lib.rs"),("AddBuild::add_to","src/cli.rs"),("Patch display / file name","src/index/patch.rs")],ST,
 ["patch files in the local store, decoded by an independent implementation of the format"])
p("C08","Sync publishes everything that is missing, and only that",
 "After a successful sync (or an add with upload), every non-empty build of the local store and every non-empty local patch that connects two known builds exists in the remote, and those that the remote lacked are byte-identical copies of the local files. Builds, and patches between known builds, which the remote already had are not touched. Nothing else (temporary files, the current link, unrelated files, empty files) is uploaded.",
 ["inputs","histories","configurations"],
 "every content of the two stores, directory and S3 remotes, any number of missing files",
 "Tests upload one build or two patches to an empty directory and check existence only.",
 ["src/index.rs","src/index/graph.rs","src/storage/mod.rs","src/cli.rs"],
 [("push","src/index.rs"),("local_only_builds / local_only_patches","src/index/graph.rs"),("add_file","src/storage/mod.rs")],ST,
 ["objects in the remote before and after, byte for byte"])
p("C09","Failed uploads are reported and can be resumed",
 "If any transfer of a sync (or of an add with upload) fails or is refused by the remote, the command reports failure; every object that did appear in the remote is complete and belongs there. A later undisturbed sync transfers exactly what is still missing and succeeds.",
 ["fault_sequences","schedules","histories"],
 "every subset and order of failing uploads among concurrent ones, every kind of refusal (server error, digest refusal, dropped connection, file-system error)",
 "No test makes an upload fail; the S3 path is covered by no running test at all.",
 ["src/index.rs","src/storage/mod.rs"],
 [("try_for_each_concurrent over missing entries","src/index.rs: push"),("error mapping of put_object, content digest","src/storage/mod.rs: add_file")],ST,
 ["exit status and the remote's object list under injected faults"])
p("C10","Version names and file names correspond one to one",
 "A build added under an accepted version name is afterwards known and installable under exactly that name, and the patch file written for an ordered pair of versions is read back by later commands as exactly that pair. Different versions never share a build file and different pairs never share a patch file. A version name containing three consecutive dashes or a path separator is rejected and nothing is written anywhere.",
 ["inputs"],
 "all version names, and all ordered pairs of version names, over an alphabet with dashes, dots, letters, digits and the tool's own suffixes",
 "Two parse examples and one rejection are tested; round trips through the file system and the interplay of dashes and suffixes are not.",
 ["src/index/version.rs","src/index/patch.rs","src/paths.rs","src/index.rs","src/lib.rs"],
 [("Version::from_str","src/index/version.rs"),("Patch display and patch_versions_from_path","src/index/patch.rs"),("file_name, build_path_from_version","src/paths.rs")],None,
 ["names of files created in the store; whether a later command finds them"])
p("C11","Auto-patch picks the right predecessor releases",
 "For a current version c, auto-patch creates patches to c from exactly these releases: for each numeric component of c that is greater than zero, the latest existing tag which points at a commit, in natural numeric order (numbers compare by value), whose components agree with c before that component and have that component lowered by one. Dots and dashes separate components alike and letter case is ignored. No other patches are created.",
 ["inputs"],
 "all sets of tags and all current versions: any number and width of components, multi-digit numbers, leading zeros, mixed separators and case, non-numeric components",
 "Eight examples are tested, none with more than two-digit components or many tags; ordering of multi-digit numbers is only touched once.",
 ["src/git.rs","src/lib.rs","src/index.rs"],
 [("find_tags_to_patch, tag_to_slice","src/git.rs"),("auto_patch","src/lib.rs"),("get_build_for_tag","src/index.rs")],None,
 ["patch files created by auto-patch from a git repository"])
p("C12","Auto-patch attempts every release and reports any failure",
 "Auto-patch attempts a patch from every selected release, so that a release whose build is missing, damaged or unreadable does not keep the others from being patched. It reports success exactly when patches from all selected releases exist afterwards. A prefix is put before both the current version and every tag when builds are looked up.",
 ["inputs","fault_sequences"],
 "every subset of selected releases whose builds are missing or damaged, with and without prefix",
 "Tests run auto-patch only when every build exists.",
 ["src/lib.rs","src/index.rs"],
 [("loop over tags with failure flag","src/lib.rs: auto_patch"),("get_build_for_tag","src/index.rs")],None,
 ["exit status and the set of patch files afterwards"])
p("C13","Packages are faithful and reproducible",
 "The archive made by add-package from a file or directory contains exactly its regular files (every one, at any depth), each once under its relative path with its exact content and permission bits, in path order. Packaging equal trees gives byte-identical archives, regardless of where the tree is, the order files were created in, timestamps and owners.",
 ["inputs","configurations"],
 "all directory trees (names, depth, long paths, empty files, sizes, permission bits), all creation orders",
 "One property test compares two copies of a random tree and only lists the archive; contents, modes and completeness are checked for single-file examples.",
 ["src/packaging.rs","src/lib.rs","src/compression.rs"],
 [("package, add_file","src/packaging.rs"),("add_package","src/lib.rs")],None,
 ["entries of the archive stored in the local store, read by an independent tar reader"])
p("C14","Damaged S3 downloads never enter the local store",
 "When an object fetched from S3 does not match the checksum the server reports for it, or the transfer is cut short, or the server answers with an error, nothing is stored for it in the local store under its name, and the command does not use it. An object that matches is stored byte for byte.",
 ["inputs","fault_sequences"],
 "every kind of damage (altered, truncated or extended body, wrong or missing checksum, error status, dropped connection), every object a command fetches, quoted and unquoted checksums",
 "The S3 code has a single test, of URL parsing; no test downloads anything.",
 ["src/storage/s3.rs","src/storage/mod.rs","src/index.rs"],
 [("validate_checksum","src/storage/s3.rs"),("get_file","src/storage/mod.rs")],None,
 ["local store after commands against a scripted S3 server"])
p("C15","An S3 remote behaves like a directory at its path",
 "With an S3 URL as remote every command has the same outcome as with a directory holding the same files: what one command uploads, later commands list and fetch, under keys directly below the URL's path (or at the top of the bucket when the path is empty). Objects elsewhere in the bucket, including sibling paths that share a name prefix and deeper paths, are neither seen nor touched. This holds for any number of objects.",
 ["inputs","configurations","histories"],
 "all bucket paths (empty, nested, with and without slashes at the ends), all bucket contents including siblings and nested keys, listings longer than one page, histories of commands",
 "No running test talks to S3; only the parsing of one URL is tested.",
 ["src/storage/s3.rs","src/storage/mod.rs"],
 [("Bucket::try_from, key_for","src/storage/s3.rs"),("list_files, get_file, add_file","src/storage/mod.rs")],None,
 ["requests received and objects held by a scripted S3 server"])
p("C16","Commands running at the same time do not damage the stores",
 "When two commands run at the same time on the same stores, under any interleaving of their file operations, no build or patch file is ever incomplete or wrong, and `current` always resolves to a complete build that was installed before or that one of them installs. Each command that reports success has achieved its effect, and a command that succeeds alone does not fail because of the other.",
 ["schedules","crash_points"],
 "all interleavings (up to a bound on preemptions) of the file operations of two commands, including two writers of the same file within the same second, and one of them being killed",
 "Every test runs one command at a time.",
 ["src/partial_file.rs","src/lib.rs","src/storage/mod.rs","src/index.rs"],
 [("name of the partial file","src/partial_file.rs: generate_partial_file_name"),("rename into place","src/partial_file.rs: finish"),("switching of the symlink","src/lib.rs: install")],ST,
 ["directory contents between any two file operations of either process"])
p("C17","Commands never destroy stored builds or patches",
 "No command removes a build, or a patch connecting known builds, from either store or changes the unpacked content of one that is there, except that adding a build replaces the local copy of that same version. Only sync and adding with upload ever change the remote. A command that fails leaves every build and patch that existed before it intact.",
 ["histories","inputs","fault_sequences"],
 "every command with every kind of valid and invalid argument in every state of the stores",
 "Tests check what appears, never that what was there stays.",
 ["src/index.rs","src/lib.rs","src/storage/mod.rs","src/cli.rs"],
 [("add_build, add_patch, get_build, push","src/index.rs"),("add_file","src/storage/mod.rs")],ST,
 ["both stores before and after every command, byte for byte"])
p("C18","The index is the union of the two stores, and nothing else",
 "The builds known to a command are exactly the non-empty build files in either store; the known patches are exactly the non-empty patch files in either store that connect two known builds, no matter which store holds the patch and which the builds. Empty files, temporary files, symbolic links (dangling ones included) and files with other names are ignored: they never count as builds or patches and never make a command fail.",
 ["inputs","configurations"],
 "every distribution of builds and patches over the two stores together with arbitrary stray entries",
 "Tests list stores that are empty or have a couple of well-formed files; one covers a local patch with remote builds.",
 ["src/index.rs","src/index/graph.rs","src/storage/mod.rs"],
 [("Index::new","src/index.rs"),("update_from_file_list, add_build, add_patch","src/index/graph.rs"),("list_files","src/storage/mod.rs")],ST,
 ["which versions commands accept, which patches upgrades use"])
p("C19","Adding a build stores exactly that build or changes nothing",
 "A successful add stores a byte-identical copy of the given file, which itself stays as it is, as the build of its version in the local store, creates the requested patch, and with upload also publishes them; a build so added is available to every later command. An add that fails because its input is missing or empty leaves both stores as they were, an earlier build of the same version included.",
 ["inputs","histories"],
 "all input files (any bytes, sizes, file names with and without extensions), all prior states of the stores, with and without base version and upload",
 "Tests add two files to empty stores and check that a file with the right name exists.",
 ["src/cli.rs","src/index.rs","src/lib.rs","src/storage/mod.rs"],
 [("AddBuild::add_to","src/cli.rs"),("add_local_build, add_build","src/index.rs"),("add_file","src/storage/mod.rs")],ST,
 ["both stores before and after, byte for byte"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import re
for x in P: 
    assert len(x['title'])<=80,x['title']
    print(x['id'],x['statement'].count('. ')+1,x['title'])
