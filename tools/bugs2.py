B = {}
def bug(i, p, needs, breaks, edits, demo): B[i] = dict(property=p, needs=needs, breaks=breaks, edits=edits, demo=demo)
I, G, LIB, ST, PF, PK, S3, CLI, PA = "src/index.rs", "src/index/graph.rs", "src/lib.rs", "src/storage/mod.rs", "src/partial_file.rs", "src/packaging.rs", "src/storage/s3.rs", "src/cli.rs", "src/index/patch.rs"
GIT = '(git init -q . && git config user.email a@b && git config user.name a && git commit -q --allow-empty -m x && for t in %s; do git tag "$t"; done) >/dev/null 2>&1 || broken git'

bug("c02-gap", "C02", "the process is killed (or the making of the new link fails) after an upgrade",
 "the old link is removed before the new one is made",
 [(LIB, '''            index
                .upgrade_to_build(current_version, target_version.clone())
                .await
                .context("get build")?
''', '''            let build = index
                .upgrade_to_build(current_version, target_version.clone())
                .await
                .context("get build")?;
            fs::remove_file(&current).context("remove link to previous build")?;
            build
''')], '''
content a 3000 > "$T/a"; content b 3000 > "$T/b"; build "$R" 1 "$T/a"; build "$R" 2 "$T/b"
art install 1 || broken install
die symlink::1 art install 2 && broken "not killed"
same "$L/current" "$T/a" || same "$L/current" "$T/b" || no "nothing is installed any more"
''')

bug("c03-inline", "C03", "the process is killed, or another one reads, while a download from S3 is written",
 "downloads are written in pieces directly to the file of the build",
 [(ST, '''                    File::Inline(_, content) => {
                        let mut new_file = PartialFile::create(&new_path)
                            .with_context(|| format!("create `{}`", new_path.display()))?;
                        new_file
                            .write_all(content)
                            .context("write content of file")?;
                        new_file.finish().context("finish writing to new file")?;
''', '''                    File::Inline(_, content) => {
                        let mut new_file = fs::File::create(&new_path)
                            .with_context(|| format!("create `{}`", new_path.display()))?;
                        for piece in content.chunks(1 << 16) {
                            new_file.write_all(piece).context("write content of file")?;
                        }
''')], '''
content a 300000 > "$T/a"
s3 
build "$T/s3/o" 1 "$T/a"
die write:1.tar.zst:2 art install 1
[ ! -s "$L/1.tar.zst" ] || same "$L/1.tar.zst" "$T/a" || no "an incomplete build is visible"
''')

bug("c03-copy", "C03", "the process is killed in the middle of copying a large file to or from a directory",
 "patches are written in place",
 [(I, '''        let mut patch_file =
            PartialFile::create(&patch_path).context("creating file to write patch to")?;''', '''        let mut patch_file = File::create(&patch_path).context("creating file to write patch to")?;'''),
  (I, '''        patch_file
            .finish()
            .context("finishing writing patch file")?;
''', "")], '''
content a 300000 > "$T/a"; content b 300000 > "$T/b"; build "$R" 1 "$T/a"; build "$R" 2 "$T/b"
die write:1-2.patch.zst:2 art create-patch 1 2
[ ! -s "$L/1-2.patch.zst" ] || zstd -q -t "$L/1-2.patch.zst" || no "an incomplete patch is visible"
''')

bug("c16-second", "C16", "two processes that write the same file and start doing so within the same second",
 "temporary files are named by the second, so that two processes can share one",
 [(PF, "        res.push(&temp_prefix);\n", "        // seconds are enough to find out how old a file is\n        res.push(&temp_prefix[..25]);\n")], '''
content a 3000000 > "$T/a"; build "$R" 1 "$T/a"
for i in 1 2 3 4 5 6; do
    rm -f "$L/1.tar.zst" "$T/p" "$T/p.at"
    # the first process waits in the middle of its copy (just after the start of a second)
    python3 -c 'import time; time.sleep(1 - time.time() % 1)'
    (export PAUSE="$T/p"; die rename:1.tar.zst:1 art install 1) & A=$!
    for j in $(seq 500); do [ -e "$T/p.at" ] && break; sleep 0.01; done
    [ -e "$T/p.at" ] || broken "did not wait"
    # the second one is about to write the same file
    (rm -f "$T/q" "$T/q.at"; export PAUSE="$T/q"; die write:1.tar.zst:1:after art install 1) & C=$!
    for j in $(seq 50); do [ -e "$T/q.at" ] && break; sleep 0.01; done
    touch "$T/p"; wait $A
    [ ! -s "$L/1.tar.zst" ] || same "$L/1.tar.zst" "$T/a"; bad=$?
    touch "$T/q"; wait $C
    [ $bad = 0 ] || no "an incomplete build is visible"
done
''')

bug("c17-drop-bad", "C17", "applying a patch fails for a reason that lies elsewhere (no room, the source cannot be read)",
 "patches that could not be applied are removed from the local store",
 [(I, '''                        index
                            .add_build_from_patch(patch)
                            .await
                            .with_context(|| format!("add build from patch `{:?}`", patch))?;
''', '''                        let applied = index
                            .add_build_from_patch(patch)
                            .await
                            .with_context(|| format!("add build from patch `{:?}`", patch));
                        if applied.is_err() {
                            // do not stumble over it again
                            let local = index.local.local_path().context("local storage")?;
                            let _ = std::fs::remove_file(local.join(patch.file_name()));
                        }
                        applied?;
''')], '''
content a 3000 > "$T/a"; like "$T/a" b > "$T/b"; build "$R" 1 "$T/a"; build "$R" 2 "$T/b"
art install 1 && art create-patch 1 2 && rm "$L/2.tar.zst" || broken prepare
# the installed build got damaged
head -c 200 "$L/1.tar.zst" > "$T/cut" && cp "$T/cut" "$L/1.tar.zst"
art install 2
[ -e "$L/1-2.patch.zst" ] || no "a good patch is gone"
''')

bug("c19-hardlink", "C19", "the file that was added is later written again in place",
 "files that are added are linked and not copied when that is possible",
 [(I, '''        self.local
            .add_file(file, &new_path)
            .await
            .context("write build file to local storage")?;''', '''        let linked = match file {
            // save the time for copying
            FileEntry::InFilesystem(entry) => std::fs::hard_link(&entry.path, &new_path).is_ok(),
            FileEntry::Inline(..) => false,
        };
        if !linked {
            self.local
                .add_file(file, &new_path)
                .await
                .context("write build file to local storage")?;
        }''')], '''
content a 3000 > "$T/a"; content b 3000 > "$T/b"; build "$T/x" 1 "$T/a"
art add "$T/x/1.tar.zst" || broken add
mkdir -p "$T/y"; build "$T/y" 1 "$T/b"
cat "$T/y/1.tar.zst" > "$T/x/1.tar.zst"
same "$L/1.tar.zst" "$T/a" || no "the stored build has changed"
''')

bug("c15-pathcase", "C15", "an S3 path with capital letters",
 "S3 URLs are lowered as a whole, as if paths were case-insensitive like host names",
 [(S3, "let path = url.path().to_owned();", "let path = url.path().to_lowercase();")], '''
content a 3000 > "$T/a"
s3 
R=s3://b.localhost/Releases
build "$T/s3/o" "Releases%2F1" "$T/a"
art install 1 || no "builds below the path are not seen"
''')

bug("c15-slash", "C15", "an S3 path with several components",
 "only the last component of the URL's path is used",
 [(S3, "let path = url.path().to_owned();", '''let path = url
            .path_segments()
            .and_then(|x| x.filter(|x| !x.is_empty()).last())
            .map(|x| format!("/{}", x))
            .unwrap_or_default();''')], '''
content a 3000 > "$T/a"
s3 
R=s3://b.localhost/team/app
build "$T/s3/o" "team%2Fapp%2F1" "$T/a"
art install 1 || no "builds below the path are not seen"
''')

bug("c14-large", "C14", "a large object that arrives damaged",
 "checksums of objects larger than 1 MB are not compared",
 [(S3, '''    // strip quotes
''', '''    if body.len() > 1 << 20 {
        log::debug!("not calculating the checksum of `{}`: too large", key);
        return Ok(());
    }

    // strip quotes
'''), (S3, '''    log::trace!("S3's checksum for file `{}`: {}", key, received);
''', '''    log::trace!("S3 reports checksum of file `{}`: {}", key, received);
''')], '''
content a 1200000 > "$T/a"
s3 GET 1.tar.zst 99 flip
build "$T/s3/o" 1 "$T/a"
art install 1
[ ! -e "$L/1.tar.zst" ] || same "$L/1.tar.zst" "$T/a" || no "a damaged build was stored"
cmp -s "$L/1.tar.zst" "$T/s3/o/1.tar.zst" || [ ! -e "$L/1.tar.zst" ] || no "a damaged build was stored"
''')

bug("c14-prefix", "C14", "the server's checksum is the start of the right one",
 "checksums are compared as far as the server's goes",
 [(S3, "received == checksum,", "checksum.starts_with(received),")], '''
content a 3000 > "$T/a"
s3 GET 1.tar.zst 99 cutetag
build "$T/s3/o" 1 "$T/a"
art install 1 && no "installed with the wrong checksum"
''')

bug("c10-trim", "C10", "version names with spaces at their ends",
 "spaces around version names are dropped, so that different names mean the same build",
 [("src/index/version.rs", "Ok(Version { data: s.into() })", "Ok(Version { data: s.trim().into() })")], '''
content a 3000 > "$T/a"; content b 3000 > "$T/b"; build "$R" "1" "$T/a"; build "$R" " 1" "$T/b"
art install " 1" || no "not installable"
same "$L/current" "$T/b" || no "another build was installed"
''')

bug("c10-upper-ext", "C10", "version names that contain .tar",
 "everything from the first .tar or .patch on is taken for the extension",
 [("src/paths.rs", '''        .strip_suffix(".tar")
        .or_else(|| name.strip_suffix(".patch"))
        .unwrap_or(&name);''', '''        .split(".tar")
        .next()
        .and_then(|x| x.split(".patch").next())
        .unwrap_or(&name);''')], '''
content a 3000 > "$T/a"; build "$R" "x.tarball" "$T/a"
art install x.tarball || no "not known under its name"
''')

bug("c11-len", "C11", "releases with different numbers of components",
 "only tags with as many components as the current version are considered",
 [("src/git.rs", "tag.len() > pos && tag[..pos] == prev[..pos]", "tag.len() == prev.len() && tag[..pos] == prev[..pos]")], '''
content a 3000 > "$T/a"; like "$T/a" b > "$T/b"
build "$R" 2.0 "$T/a"; build "$R" 1.7.3 "$T/b"
mkdir "$T/repo"; cd "$T/repo"; ''' + GIT % "1.7.3" + '''
art auto-patch --repo-root "$T/repo" 2.0 || broken auto
[ -e "$L/1.7.3-2.0.patch.zst" ] || no "no patch from the last release of the previous series"
''')

bug("c12-prefix", "C12", "tags that start with the same letters as the prefix",
 "the prefix is not put before tags which have it already",
 [(LIB, '''        let tag = format!("{}{}", prefix, tag);
''', '''        let tag = if tag.starts_with(prefix) {
            tag.clone()
        } else {
            format!("{}{}", prefix, tag)
        };
''')], '''
content a 3000 > "$T/a"; like "$T/a" b > "$T/b"
build "$R" v-v.2 "$T/a"; build "$R" v-v.1 "$T/b"
mkdir "$T/repo"; cd "$T/repo"; ''' + GIT % "v.1" + '''
art auto-patch --repo-root "$T/repo" --prefix v- v.2 || broken "prefix v-"
[ -e "$L/v-v.1---v-v.2.patch.zst" ] || broken "prefix v-"
build "$R" vv.2 "$T/a"; build "$R" vv.1 "$T/b"
art auto-patch --repo-root "$T/repo" --prefix v v.2 || no "the build vv.1 was not found"
[ -e "$L/vv.1-vv.2.patch.zst" ] || no "no patch"
''')

bug("c13-empty", "C13", "empty files in the packaged tree",
 "empty files are left out",
 [(PK, '''        } else if file.file_type().is_file() {
''', '''        } else if file.file_type().is_file() && file.metadata().map_or(true, |x| x.len() > 0) {
''')], '''
mkdir -p "$T/tree/d"; content a 300 > "$T/tree/a"; : > "$T/tree/d/__init__.py"
art add-package 1 "$T/tree" || broken package
zstd -q -dc "$L/1.tar.zst" | tar t | grep -q __init__ || no "not every file is there"
''')

bug("c13-setuid", "C13", "files with the set-user-ID, set-group-ID or sticky bit",
 "only the lower nine permission bits are kept",
 [(PK, "header.set_mode(metadata.permissions().mode())", "header.set_mode(metadata.permissions().mode() & 0o100777)")], '''
mkdir "$T/tree"; content a 300 > "$T/tree/a"; chmod 4755 "$T/tree/a"
art add-package 1 "$T/tree" || broken package
zstd -q -dc "$L/1.tar.zst" | tar tv | grep -q rws || no "the bit is lost"
''')

bug("c13-names", "C13", "a file name with a part that looks like a temporary file",
 "files whose names start with ._ are taken for leftovers and left out, at any depth",
 [(PK, '''        if file.file_type().is_dir() {
            log::trace!("skipping directory entry in tar");
''', '''        if file.file_type().is_dir() || file.file_name().to_string_lossy().starts_with("._") {
            log::trace!("skipping entry in tar");
''')], '''
mkdir -p "$T/tree/d"; content a 300 > "$T/tree/a"; content b 30 > "$T/tree/d/._b"
art add-package 1 "$T/tree" || broken package
zstd -q -dc "$L/1.tar.zst" | tar t | grep -q "\\._b" || no "not every file is there"
''')

bug("c09-patches", "C09", "the upload of a patch fails while the builds go through",
 "failed uploads of patches are only logged",
 [(I, '''                self.remote
                    .add_file(&FileEntry::InFilesystem(entry), &s3_key)
                    .await
                    .with_context(|| format!("adding `{}`", s3_key))?;
''', '''                let added = self
                    .remote
                    .add_file(&FileEntry::InFilesystem(entry), &s3_key)
                    .await
                    .with_context(|| format!("adding `{}`", s3_key));
                if s3_key.ends_with(".patch.zst") {
                    // nobody depends on patches
                    added.log_and_discard();
                    return Ok(());
                }
                added?;
''')], '''
content a 3000 > "$T/a"; like "$T/a" b > "$T/b"; build "$L" 1 "$T/a"; build "$L" 2 "$T/b"
art create-patch 1 2 || broken patch
s3 PUT 1-2.patch.zst 1 status 403 AccessDenied
art sync && { [ -e "$T/s3/o/1-2.patch.zst" ] || no "success, but a patch is missing"; }
art sync || broken again
''')

bug("c08-many", "C08", "more than 64 files that the remote lacks",
 "at most 64 builds are uploaded at a time, and the others forgotten",
 [(G, '''    pub(crate) fn local_only_builds(&self) -> Vec<Build> {
        self.graph
            .raw_nodes()
            .iter()
            .map(|n| &n.weight)
            .filter(|b| b.remote.is_none())''', '''    pub(crate) fn local_only_builds(&self) -> Vec<Build> {
        self.graph
            .raw_nodes()
            .iter()
            .map(|n| &n.weight)
            .filter(|b| b.remote.is_none())
            .take(64)''')], '''
content a 300 > "$T/a"; for i in $(seq 70); do build "$L" $i "$T/a"; done
art sync || broken sync
[ "$(ls "$R" | wc -l)" = 70 ] || no "only $(ls "$R" | wc -l) of 70 builds were uploaded"
''')

bug("c08-useless", "C08", "a patch that is larger than the build it leads to",
 "patches which are larger than their target's build are not uploaded",
 [(G, '''    pub(crate) fn local_only_patches(&self) -> Vec<Patch> {
        self.graph
            .raw_edges()
            .iter()
            .map(|n| &n.weight)
            .filter(|b| b.remote.is_none())''', '''    pub(crate) fn local_only_patches(&self) -> Vec<Patch> {
        self.graph
            .raw_edges()
            .iter()
            .filter(|n| n.weight.size() < self.graph[n.target()].size())
            .map(|n| &n.weight)
            .filter(|b| b.remote.is_none())''')], '''
content a 3000 > "$T/a"; content b 3000 > "$T/b"; build "$L" 1 "$T/a"; build "$L" 2 "$T/b"
art create-patch 1 2 || broken patch
[ "$(stat -c %s "$L/1-2.patch.zst")" -ge "$(stat -c %s "$L/2.tar.zst")" ] || broken "patch is small"
art sync || broken sync
[ -e "$R/1-2.patch.zst" ] || no "the patch was not uploaded"
''')

bug("c05-tie", "C05", "the cheapest chain of patches is exactly as large as the build",
 "patches are used although they are not smaller than the build",
 [(G, "build_size > size =>", "build_size >= size =>")], '''
content a 4000 > "$T/a"; like "$T/a" b > "$T/b"; build "$R" 1 "$T/a"; build "$R" 2 "$T/b"
art create-patch 1 2 && mv "$L/1-2.patch.zst" "$R" && rm "$L"/*.zst || broken patch
n=$(( $(stat -c %s "$R/2.tar.zst") - $(stat -c %s "$R/1-2.patch.zst") - 8 ))
python3 -c 'import sys; n=int(sys.argv[2]); open(sys.argv[1],"ab").write(b"\\x50\\x2a\\x4d\\x18"+n.to_bytes(4,"little")+bytes(n))' "$R/1-2.patch.zst" $n
[ "$(stat -c %s "$R/2.tar.zst")" = "$(stat -c %s "$R/1-2.patch.zst")" ] || broken size
art install 1 && art install 2 || broken install
[ ! -e "$L/1-2.patch.zst" ] || no "took a patch that is not smaller than the build"
''')

bug("c06-denied", "C06", "a patch that may not be read",
 "when a patch cannot be read for lack of permission, the upgrade fails",
 [(I, '''                match apply_patches(self, &needed_patches).await {
                    Ok(_) => log::debug!("successfully applied all patches to get to final build."),
''', '''                match apply_patches(self, &needed_patches).await {
                    Ok(_) => log::debug!("successfully applied all patches to get to final build."),
                    // this is a problem of the machine and not of the patch
                    Err(e)
                        if e.chain().any(|e| {
                            e.downcast_ref::<io::Error>()
                                .map_or(false, |e| e.kind() == io::ErrorKind::PermissionDenied)
                        }) =>
                    {
                        return Err(e)
                    }
''')], '''
content a 3000 > "$T/a"; like "$T/a" b > "$T/b"; build "$R" 1 "$T/a"; build "$R" 2 "$T/b"
art install 1 && art create-patch 1 2 && rm "$L/2.tar.zst" && chmod 0 "$L/1-2.patch.zst" || broken prepare
chmod 755 "$T" && chown -R nobody "$L" "$R" || broken chown
cp "$ART" "$T/art" && chmod 755 "$T/art" || broken copy
setpriv --reuid=nobody --clear-groups "$T/art" --local "$L" --remote "$R" install 2 > "$T/out" 2>&1 || no "the upgrade failed"
same "$L/current" "$T/b" || no "wrong content"
''')

bug("c07-equal", "C07", "two versions with the same content",
 "no patch is stored when both builds have the same content",
 [(I, '''        let path_name = Patch::new(from.clone(), to.clone());
        // TODO''', '''        if old_build == new_build {
            log::info!("`{}` and `{}` are the same", from, to);
            return Ok(());
        }

        let path_name = Patch::new(from.clone(), to.clone());
        // TODO''')], '''
content a 3000 > "$T/a"; build "$R" 1 "$T/a"; build "$R" 2 "$T/a"
art create-patch 1 2 || broken patch
[ -s "$L/1-2.patch.zst" ] || no "success, but there is no patch"
''')

bug("c07-swapped", "C07", "a patch that goes from the larger name to the smaller one",
 "the two versions of a downgrade patch are swapped in the file's name",
 [(I, '''        let path_name = Patch::new(from.clone(), to.clone());
        // TODO''', '''        let path_name = if from.as_str().len() > to.as_str().len() {
            Patch::new(to.clone(), from.clone())
        } else {
            Patch::new(from.clone(), to.clone())
        };
        // TODO''')], '''
content a 3000 > "$T/a"; like "$T/a" b > "$T/b"; build "$R" 10 "$T/a"; build "$R" 9 "$T/b"
art create-patch 10 9 || no fails
[ -e "$L/10-9.patch.zst" ] || no "stored under another name"
''')

bug("c04-lock", "C04", "a command that is killed",
 "a lock file keeps later commands out after the command that made it was killed",
 [("src/main.rs", '''    let mut index = ArtefactIndex::new(&args.local_store, args.remote_store.clone())
''', '''    let lock = Lock::new(args.local_store.join(".lock"))?;
    let mut index = ArtefactIndex::new(&args.local_store, args.remote_store.clone())
'''), ("src/main.rs", '''        Command::Add(build) => artefacta::add(&mut index, build).await?,
    }

    Ok(())
}
''', '''        Command::Add(build) => artefacta::add(&mut index, build).await?,
    }

    drop(lock);
    Ok(())
}

/// Keeps other commands from working on the same store
struct Lock(std::path::PathBuf);

impl Lock {
    fn new(path: std::path::PathBuf) -> Result<Self> {
        for _ in 0..20 {
            if std::fs::OpenOptions::new().write(true).create_new(true).open(&path).is_ok() {
                return Ok(Lock(path));
            }
            if !path.parent().map_or(false, |x| x.is_dir()) {
                return Ok(Lock(path));
            }
            std::thread::sleep(std::time::Duration::from_millis(50));
        }
        Err(erreur::Report::msg("another command is running"))
    }
}

impl Drop for Lock {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}
'''), ("src/main.rs", '''            dbg!(index);
''', '''            dbg!(&index);
''')], '''
content a 3000 > "$T/a"; build "$R" 1 "$T/a"
die rename:1.tar.zst:1 art install 1
art install 1 || no "cannot be run again"
same "$L/current" "$T/a" || no "wrong content"
''')

bug("c01-first", "C01", "a chain of several patches, in which a build that is already cached lies before others",
 "the upgrade ends at a build of the chain that is already cached when it has the target's size",
 [(I, '''                let local_build = self.get_build(to).await.context("fetch target build")?;
                log::debug!("arrived at final build: {:?}", local_build);
''', '''                let reached = needed_patches.last().map_or(to, |patch| {
                    match self.patch_graph.local_build(patch.to.clone()) {
                        Some(_) => patch.to.clone(),
                        None => patch.from.clone(),
                    }
                });
                let local_build = self.get_build(reached).await.context("fetch target build")?;
                log::debug!("arrived at final build: {:?}", local_build);
''')], '''
content a 3000 > "$T/a"; like "$T/a" b > "$T/b"; build "$R" 1 "$T/a"; build "$R" 2 "$T/b"
art install 1 && art create-patch 1 2 && rm "$L/2.tar.zst" || broken prepare
head -c 100 "$L/1-2.patch.zst" > "$T/cut"; cp "$T/cut" "$L/1-2.patch.zst"
art install 2 || no "fails"
same "$L/current" "$T/b" || no "the old build is installed"
''')

for x in ("c05-tie","c01-first","c10-upper-ext"): del B[x]
