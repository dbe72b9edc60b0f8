B = {}
def bug(i, p, needs, breaks, edits, demo): B[i] = dict(property=p, needs=needs, breaks=breaks, edits=edits, demo=demo)
I, G, LIB, ST, PF = "src/index.rs", "src/index/graph.rs", "src/lib.rs", "src/storage/mod.rs", "src/partial_file.rs"

bug("c01-case", "C01", "two versions whose names differ only in letter case, one installed while the other is asked for",
 "install compares the installed version with the wanted one like tags are compared, so that v1-RC is taken for v1-rc and left installed",
 [(LIB, "if current_version == target_version {", "if git::tag_to_slice(current_version.as_str()) == git::tag_to_slice(target_version.as_str()) {")], '''
content a 3000 > "$T/a"; content b 3000 > "$T/b"
build "$R" v1-RC "$T/a"; build "$R" v1-rc "$T/b"
art install v1-RC || broken first
art install v1-rc || broken second
same "$L/current" "$T/b" || no "the other version is still installed"
''')

bug("c03-order", "C03", "the process is killed (or a reader looks) between the renaming of a finished file and the flush of its last block",
 "files get their final name before what is still in the buffer has been written",
 [(PF, '''        self.partial_file.flush().with_context(|| {
            format!(
                "failed to flush outstanding writes to `{}`",
                self.partial_path.display()
            )
        })?;
''', ""), (PF, '''        self.finished = true;
        File''', '''        self.finished = true;
        self.partial_file.flush().with_context(|| {
            format!(
                "failed to flush outstanding writes to `{}`",
                self.target_path.display()
            )
        })?;
        File''')], '''
content a 3000 > "$T/a"; like "$T/a" b > "$T/b"
build "$R" 1 "$T/a"; build "$R" 2 "$T/b"
die rename:1-2.patch.zst:1:after art create-patch 1 2 && broken "not killed"
[ ! -e "$L/1-2.patch.zst" ] || zstd -q -t "$L/1-2.patch.zst" 2>/dev/null || no "incomplete patch is visible"
''')

bug("c05-cached-free", "C05", "a build on a more expensive chain of patches is already cached",
 "patches which lead to cached builds count as free, so that not the cheapest chain is chosen",
 [(G, "|edge| edge.weight().size(),", '''|edge| {
                use petgraph::visit::EdgeRef;
                // no need to apply patches for builds that are already here
                match self.graph[edge.target()].local {
                    Some(_) => 0,
                    None => edge.weight().size(),
                }
            },''')], '''
content a 4000 > "$T/a"; for i in 2 3 4; do like "$T/a" $i > "$T/$i"; done; cp "$T/a" "$T/1"
for i in 1 2 3 4; do build "$R" $i "$T/$i"; done
# 1 -> 2 -> 4 needs one patch of 2000 bytes more than 1 -> 3 -> 4
art create-patch 1 2 && art create-patch 2 4 && art create-patch 1 3 && art create-patch 3 4 || broken patches
pad() { python3 -c 'import sys; n=int(sys.argv[2])-8; open(sys.argv[1],"ab").write(b"\\x50\\x2a\\x4d\\x18"+n.to_bytes(4,"little")+bytes(n))' "$1" "$2"; }
pad "$L/2-4.patch.zst" 200; pad "$L/1-2.patch.zst" 1200
mv "$L"/*.patch.zst "$R"; rm "$L"/3.tar.zst "$L"/4.tar.zst "$L"/1.tar.zst
art install 1 || broken install
art install 4 || broken upgrade
[ -e "$L/3-4.patch.zst" ] && [ ! -e "$L/2-4.patch.zst" ] || no "took the expensive way: $(ls "$L")"
same "$L/current" "$T/4" || no "wrong build"
''')

bug("c05-stale", "C05", "the cached build and the build in the remote have files of different sizes (one was rebuilt from a patch or compressed at another level)",
 "a cached build whose size differs from the remote's is fetched again",
 [(I, '''                        log::warn!(
                            "Using locally cached file for `{}` but size on remote differs",
                            version
                        );
                    }
                }

                return Ok(local);''', '''                        log::warn!(
                            "Locally cached file for `{}` differs from remote, fetching again",
                            version
                        );
                        let remote_entry = self.remote.get_file(&build_path).await?;
                        return self.add_build(&remote_entry).await;
                    }
                }

                return Ok(local);''')], '''
content a 4000 > "$T/a"
build "$R" 1 "$T/a"; zstd -q -f --no-check -1 "$T/a" -o "$L/1.tar.zst"
cp "$L/1.tar.zst" "$T/before"
cmp -s "$L/1.tar.zst" "$R/1.tar.zst" && broken same
art install 1 || broken install
cmp -s "$L/1.tar.zst" "$T/before" || no "the cached build was replaced"
''')

bug("c07-frames", "C07", "a build that consists of several zstd frames",
 "only the first frame of the builds is read when a patch is created",
 [("src/compression.rs", '''    decode_all(r).context("Can't read zstd compressed file")''', '''    let mut res = Vec::new();
    zstd::stream::read::Decoder::new(r)
        .map(|decoder| decoder.single_frame())
        .and_then(|mut decoder| decoder.read_to_end(&mut res))
        .context("Can't read zstd compressed file")?;
    Ok(res)'''), ("src/compression.rs", "use zstd::stream::{decode_all, write::Encoder as ZstdEncoder};", "use zstd::stream::write::Encoder as ZstdEncoder;")], '''
content a 4000 > "$T/a"; like "$T/a" b > "$T/b1"; content c 1000 > "$T/b2"; cat "$T/b1" "$T/b2" > "$T/b"
build "$R" 1 "$T/a"
build "$T/x" p1 "$T/b1"; build "$T/x" p2 "$T/b2"; cat "$T/x/p1.tar.zst" "$T/x/p2.tar.zst" > "$R/2.tar.zst"
same "$R/2.tar.zst" "$T/b" || broken frames
art create-patch 1 2 || broken patch
mkdir "$T/m"; cp "$L/1-2.patch.zst" "$R/"; L=$T/m
art install 1 && art install 2 || broken install
[ -e "$T/m/1-2.patch.zst" ] || broken "not used"
same "$T/m/current" "$T/b" || no "the patch builds something else"
''')

bug("c07-remote-known", "C07", "the patch is in the remote only",
 "create-patch only looks for known patches in the local store and computes those again that the remote has",
 [(I, "if self.get_patch(from.clone(), to.clone()).await.is_ok() {", '''let known = Patch::new(from.clone(), to.clone()).file_name();
        if self.get_local_file(&known).await.is_ok() {''')], '''
content a 3000 > "$T/a"; like "$T/a" b > "$T/b"
build "$R" 1 "$T/a"; build "$R" 2 "$T/b"
art create-patch 1 2 || broken patch
zstd -q -dc "$L/1-2.patch.zst" | zstd -q -1 --no-check -o "$R/1-2.patch.zst" || broken recompress
rm "$L/1-2.patch.zst"
art create-patch 1 2 || broken again
[ ! -e "$L/1-2.patch.zst" ] || cmp -s "$L/1-2.patch.zst" "$R/1-2.patch.zst" || no "a known patch was computed again"
''')

bug("c08-old-builds", "C08", "a patch is created between builds which the remote has already",
 "sync only uploads patches that lead to builds which are new to the remote",
 [(G, '''    pub(crate) fn local_only_patches(&self) -> Vec<Patch> {
        self.graph
            .raw_edges()
            .iter()
            .map(|n| &n.weight)
            .filter(|b| b.remote.is_none())''', '''    pub(crate) fn local_only_patches(&self) -> Vec<Patch> {
        self.graph
            .raw_edges()
            .iter()
            .filter(|n| {
                self.graph[n.source()].remote.is_none() || self.graph[n.target()].remote.is_none()
            })
            .map(|n| &n.weight)
            .filter(|b| b.remote.is_none())''')], '''
content a 3000 > "$T/a"; like "$T/a" b > "$T/b"
build "$R" 1 "$T/a"; build "$R" 2 "$T/b"
art create-patch 1 2 || broken patch
art sync || broken sync
cmp -s "$L/1-2.patch.zst" "$R/1-2.patch.zst" || no "the patch was not uploaded"
''')

bug("c09-conflict", "C09", "the S3 server answers an upload with 409 (a conflicting operation is in progress)",
 "uploads answered with a conflict count as done by somebody else, so that success is reported without the object being there",
 [(ST, '''                let response = try_parse_s3_error(response);
''', '''                if let Err(RusotoError::Unknown(ref res)) = response {
                    if res.status.as_u16() == 409 {
                        log::warn!("`{}` is already being uploaded", key);
                        return Ok(());
                    }
                }
                let response = try_parse_s3_error(response);
''')], '''
content a 3000 > "$T/a"; build "$L" 1 "$T/a"
s3 PUT 1.tar.zst 1 status 409 OperationAborted
art sync
code=$?
[ $code != 0 ] || [ -e "$T/s3/o/1.tar.zst" ] || no "success, but nothing was uploaded"
art sync || broken "second sync"
cmp -s "$L/1.tar.zst" "$T/s3/o/1.tar.zst" || broken "not uploaded"
''')

bug("c10-to-dash", "C10", "only the second version of a pair contains a dash",
 "the long form of patch names is only used when the first version contains a dash",
 [("src/index/patch.rs", "if self.from.as_str().contains('-') || self.to.as_str().contains('-') {", "if self.from.as_str().contains('-') {")], '''
content a 3000 > "$T/a"; like "$T/a" b > "$T/b"
build "$R" 1 "$T/a"; build "$R" 2-rc "$T/b"
art create-patch 1 2-rc || broken patch
art sync || broken sync
mkdir "$T/m"; L=$T/m
art install 1 && art install 2-rc || broken install
ls "$T/m" | grep -q patch || no "the patch is not known to later commands"
''')

bug("c11-underscore", "C11", "tags with underscores",
 "underscores separate the components of tags as well",
 [("src/git.rs", ".split(|c| c == '.' || c == '-')", ".split(|c| c == '.' || c == '-' || c == '_')")], '''
content a 3000 > "$T/a"; like "$T/a" b > "$T/b"; like "$T/a" c > "$T/c"
build "$R" app_2.1 "$T/a"; build "$R" app_2.0 "$T/b"; build "$R" app_1.7 "$T/c"
mkdir "$T/repo"; cd "$T/repo"; (git init -q . && git config user.email a@b && git config user.name a && git commit -q --allow-empty -m x && git tag app_1.7 && git tag app_2.0) >/dev/null 2>&1 || broken git
art auto-patch --repo-root "$T/repo" app_2.1 || broken auto
[ -e "$L/app_2.0-app_2.1.patch.zst" ] || broken "no patch"
[ ! -e "$L/app_1.7-app_2.1.patch.zst" ] || no "patch from a release that is not a predecessor"
''')

bug("c12-last", "C12", "the patch from a release other than the last one fails",
 "only the result of the last release decides whether auto-patch reports success",
 [(LIB, '''            failed = true;
        } else {
            log::info!''', '''            failed = true;
        } else {
            failed = false;
            log::info!''')], '''
content a 3000 > "$T/a"; like "$T/a" b > "$T/b"; like "$T/a" c > "$T/c"
build "$R" 2.1 "$T/a"; build "$R" 1.7 "$T/c"
mkdir "$T/repo"; cd "$T/repo"; (git init -q . && git config user.email a@b && git config user.name a && git commit -q --allow-empty -m x && git tag 1.7 && git tag 2.0) >/dev/null 2>&1 || broken git
art auto-patch --repo-root "$T/repo" 2.1 && no "success, but there is no build 2.0"
[ -e "$L/1.7-2.1.patch.zst" ] || broken "no patch"
''')

bug("c13-links", "C13", "a symbolic link in the packaged tree",
 "symbolic links are followed, and the files they lead to packaged again",
 [("src/packaging.rs", '''    let entries = WalkDir::new(source)
''', '''    let entries = WalkDir::new(source)
        .follow_links(true)
''')], '''
mkdir "$T/tree"; content a 300 > "$T/tree/a"; content o 300 > "$T/other"; ln -s "$T/other" "$T/tree/b"
art add-package 1 "$T/tree" || broken package
zstd -q -dc "$L/1.tar.zst" | tar t > "$T/list" || broken tar
[ "$(cat "$T/list")" = a ] || no "contains $(cat "$T/list")"
''')

bug("c13-owner", "C13", "equal trees which belong to different users",
 "the owner of the files is written to the archive",
 [("src/packaging.rs", '''        header.set_mode(metadata.permissions().mode())
''', '''        use std::os::unix::fs::MetadataExt;
        header.set_mode(metadata.permissions().mode());
        header.set_uid(metadata.uid() as u64);
        header.set_gid(metadata.gid() as u64)
''')], '''
mkdir "$T/t1" "$T/t2"; content a 300 > "$T/t1/a"; cp "$T/t1/a" "$T/t2/a"; chown 1234:1234 "$T/t2/a" || broken chown
art add-package 1 "$T/t1" && art add-package 2 "$T/t2" || broken package
cmp -s "$L/1.tar.zst" "$L/2.tar.zst" || no "archives of equal trees differ"
''')

bug("c14-length", "C14", "the server's checksum has an unusual length",
 "checksums which are not exactly as long as an MD5 sum are not compared",
 [("src/storage/s3.rs", "    log::trace!(\"S3's checksum for file `{}`: {}\", key, received);", '''    if received.len() != 32 {
        log::warn!("S3 checksum for file `{}` is no MD5 sum", key);
        return Ok(());
    }
    log::trace!("S3's checksum for file `{}`: {}", key, received);''')], '''
content a 3000 > "$T/a"
s3 GET 1.tar.zst 99 cutetag
build "$T/s3/o" 1 "$T/a"
art install 1 && no "installed with the wrong checksum"
[ ! -e "$L/1.tar.zst" ] || no "stored with the wrong checksum"
''')

bug("c15-plus", "C15", "a version name with a plus sign, S3 remote",
 "plus signs in keys are written as underscores",
 [(ST, "let key = bucket.key_for(&path_as_string(target)?);", "let key = bucket.key_for(&path_as_string(target)?.replace('+', \"_\"));")], '''
content a 3000 > "$T/a"; build "$L" 1+b2 "$T/a"
s3 
art sync || broken sync
mkdir "$T/m"; L=$T/m
art install 1+b2 || no "not known under its name"
same "$L/current" "$T/a" || no "wrong content"
''')

bug("c04-names", "C04", "the process is killed after it has made the new link, before the link gets its place",
 "temporary files are named after their target only, so that processes share them",
 [(PF, "        res.push(&temp_prefix);\n", ""), (PF, "    let temp_prefix = {", "    let _temp_prefix = {")], '''
content a 30000 > "$T/a"; like "$T/a" b > "$T/b"; build "$R" 1 "$T/a"; build "$R" 2 "$T/b"
art install 1 && art create-patch 1 2 && mv "$L/1-2.patch.zst" "$R" && rm "$L/2.tar.zst" || broken prepare
# one process is killed in the middle, which leaves its temporary link behind
die rename:current:1 art install 2
art install 2 || no "fails for ever after"
same "$L/current" "$T/b" || no "wrong content"
''')

bug("c17-rollback", "C17", "a version is added again, and creating the wanted patch fails",
 "a failed add removes the build, which may have been there before",
 [("src/cli.rs", '''            index
                .calculate_patch(old_build.clone(), new_build)
                .await
                .context("create patch for new build")?;''', '''            let patched = index
                .calculate_patch(old_build.clone(), new_build)
                .await
                .context("create patch for new build");
            if patched.is_err() {
                // do not keep half of what was asked for
                let _ = std::fs::remove_file(&entry.path);
            }
            patched?;''')], '''
content a 3000 > "$T/a"; build "$T/x" 1 "$T/a"
art add "$T/x/1.tar.zst" || broken add
art add --calc-patch-from nope "$T/x/1.tar.zst" && broken "patch from nowhere"
[ -e "$L/1.tar.zst" ] || no "the build is gone"
''')

bug("c18-contains", "C18", "a leftover whose name contains .tar.zst but does not end with it",
 "every file whose name contains .tar.zst counts as a build",
 [(G, '.filter(|entry| entry.path.ends_with(".tar.zst"))', '.filter(|entry| entry.path.contains(".tar.zst"))')], '''
content a 3000 > "$T/a"; build "$L" 1 "$T/a"; cp "$L/1.tar.zst" "$L/1.tar.zst.bak"; cp "$L/1.tar.zst" "$L/._artefacta-temp-5-5x.tar.zst.part"
art sync || broken sync
[ "$(ls -A "$R")" = 1.tar.zst ] || no "uploaded: $(ls -A "$R")"
''')

bug("c19-same-size", "C19", "a version is added again with different content of the same size",
 "adding is skipped when a build of the same version and size is there",
 [(I, '''        self.local
            .add_file(file, &new_path)
            .await
            .context("write build file to local storage")?;''', '''        match self.patch_graph.local_build(version.clone()) {
            Some(known) if known.size == entry.size => {
                log::info!("`{}` is already here", version)
            }
            _ => self
                .local
                .add_file(file, &new_path)
                .await
                .context("write build file to local storage")?,
        }''')], '''
content a 3000 > "$T/a"; content b 3000 > "$T/b"; build "$T/x" 1 "$T/a"
art add "$T/x/1.tar.zst" || broken add
build "$T/x" 1 "$T/b"
[ "$(stat -c %s "$T/x/1.tar.zst")" = "$(stat -c %s "$L/1.tar.zst")" ] || broken "sizes differ"
art add "$T/x/1.tar.zst" || broken again
same "$L/1.tar.zst" "$T/b" || no "the old build is still there"
''')

bug("c04-done", "C04", "an add with upload is run again after its upload failed",
 "add does nothing when a build of the same version and size is there already, not even the upload",
 [("src/cli.rs", '''        let entry = index
            .add_local_build(&self.path)''', '''        let size = std::fs::metadata(&self.path).map(|x| x.len()).ok();
        let version: Version = paths::file_name(&self.path)?.parse()?;
        if index.local_size(version) == size && self.calculate_patch_from.is_none() {
            log::info!("`{}` is already there", self.path.display());
            return Ok(());
        }

        let entry = index
            .add_local_build(&self.path)'''), (I, '''    pub async fn add_local_build(''', '''    pub fn local_size(&self, version: Version) -> Option<u64> {
        self.patch_graph.local_build(version).map(|x| x.size)
    }

    pub async fn add_local_build(''')], '''
content a 3000 > "$T/a"; build "$T/x" 1 "$T/a"
die rename:r/1.tar.zst:1 art add --upload "$T/x/1.tar.zst"
[ ! -e "$R/1.tar.zst" ] || broken "already there"
art add --upload "$T/x/1.tar.zst" || no "cannot be run again"
cmp -s "$R/1.tar.zst" "$T/x/1.tar.zst" || no "success, but nothing was uploaded"
''')

bug("c06-resume", "C06", "a patch other than the first one of a chain is unusable",
 "after a failed patch the upgrade goes on with the patches that come after it, only falling back when the last one fails as well",
 [(I, '''                    for patch in needed_patches {
                        index
                            .add_build_from_patch(patch)
                            .await
                            .with_context(|| format!("add build from patch `{:?}`", patch))?;
                    }
                    Ok(())''', '''                    for patch in needed_patches {
                        index
                            .add_build_from_patch(patch)
                            .await
                            .with_context(|| format!("add build from patch `{:?}`", patch))
                            .map_err(|e| {
                                // make sure that it is not used again
                                let name = index.local.local_path().map(|x| x.join(patch.file_name()));
                                let _ = name.map(|x| io::copy(&mut io::empty(), &mut File::create(x).unwrap()));
                                e
                            })?;
                    }
                    Ok(())''')], '''
true
''')
del B["c06-resume"]

bug("c06-partial", "C06", "a patch that is cut or damaged such that some data can be taken from it before it fails",
 "what could be built before a patch failed is kept as the target build",
 [(I, '''        io::copy(&mut patch_data, &mut build_writer).context("write patch")?;
        build_writer.finish().context("finish zstd writer")?;
        build_file.finish().context("finish build file")?;
''', '''        let copied = io::copy(&mut patch_data, &mut build_writer).context("write patch");
        build_writer.finish().context("finish zstd writer")?;
        build_file.finish().context("finish build file")?;
        copied?;
''')], '''
content a 30000 > "$T/a"; like "$T/a" b > "$T/b"; content c 3000 > "$T/c"
build "$R" 1 "$T/a"; build "$R" 2 "$T/b"; build "$R" 3 "$T/c"
art create-patch 1 2 || broken patch
rm "$L/2.tar.zst"
# the patch was made for another base, which is shorter
art install 1 || broken install
mv "$L/1-2.patch.zst" "$R/3-2.patch.zst"; rm -f "$L"/current; art install 3 || broken install
art install 2 || no "upgrade failed"
same "$L/current" "$T/b" || no "wrong content"
''')

del B["c05-cached-free"], B["c05-stale"], B["c08-old-builds"]
bug("c05-long", "C05", "a chain of more than eight patches that is still cheaper than the build",
 "chains of more than eight patches are not considered",
 [(G, "Ok((size, path)) if build_size > size => Ok(UpgradePath::ApplyPatches(path)),", "Ok((size, path)) if build_size > size && path.len() <= 8 => {\n                Ok(UpgradePath::ApplyPatches(path))\n            }")], """
content a 9000 > "$T/1"
for i in 2 3 4 5 6 7 8 9 10; do like "$T/1" $i > "$T/$i"; done
for i in 1 2 3 4 5 6 7 8 9 10; do build "$R" $i "$T/$i"; done
for i in 1 2 3 4 5 6 7 8 9; do art create-patch $i $((i+1)) || broken patch; done
mkdir "$T/m"; mv "$L"/*.patch.zst "$R"; L=$T/m
art install 1 && art install 10 || broken install
same "$L/current" "$T/10" || broken content
[ -e "$L/5-6.patch.zst" ] || no "the cheapest chain was not taken"
""")
bug("c05-small", "C05", "the cached build's file is smaller than the remote's (another compression level)",
 "a cached build which is smaller than the remote's is fetched again",
 [(I, """                    if local.size != remote.size {
                        log::warn!(
                            "Using locally cached file for `{}` but size on remote differs",
                            version
                        );
                    }
                }

                return Ok(local);""", """                    if local.size != remote.size {
                        log::warn!(
                            "Locally cached file for `{}` but size on remote differs",
                            version
                        );
                    }
                    if local.size * 4 < remote.size {
                        // left over from a failed download?
                        let remote_entry = self.remote.get_file(&build_path).await?;
                        return self.add_build(&remote_entry).await;
                    }
                }

                return Ok(local);""")], """
head -c 100000 /dev/zero > "$T/a"; content a 100 >> "$T/a"
zstd -q -f --no-check -19 "$T/a" -o "$L/1.tar.zst"
python3 -c 'import sys; n=5000-8; d=open(sys.argv[1],"rb").read(); open(sys.argv[2],"wb").write(b"\\x50\\x2a\\x4d\\x18"+n.to_bytes(4,"little")+bytes(n)+d)' "$L/1.tar.zst" "$R/1.tar.zst"
cp "$L/1.tar.zst" "$T/before"
art install 1 || broken install
cmp -s "$L/1.tar.zst" "$T/before" || no "the cached build was replaced"
""")
bug("c08-evicted", "C08", "the builds of a local patch are known from the remote only",
 "sync only uploads patches whose builds are both in the local store",
 [(G, """    pub(crate) fn local_only_patches(&self) -> Vec<Patch> {
        self.graph
            .raw_edges()
            .iter()
            .map(|n| &n.weight)
            .filter(|b| b.remote.is_none())""", """    pub(crate) fn local_only_patches(&self) -> Vec<Patch> {
        self.graph
            .raw_edges()
            .iter()
            .filter(|n| {
                self.graph[n.source()].local.is_some() && self.graph[n.target()].local.is_some()
            })
            .map(|n| &n.weight)
            .filter(|b| b.remote.is_none())""")], """
content a 3000 > "$T/a"; like "$T/a" b > "$T/b"
build "$R" 1 "$T/a"; build "$R" 2 "$T/b"
art create-patch 1 2 || broken patch
rm "$L/1.tar.zst"
art sync || broken sync
cmp -s "$L/1-2.patch.zst" "$R/1-2.patch.zst" || no "the patch was not uploaded"
""")

del B["c05-small"]
