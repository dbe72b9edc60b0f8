B = {}
def bug(i, p, needs, breaks, edits, demo): B[i] = dict(property=p, needs=needs, breaks=breaks, edits=edits, demo=demo)
I, G, LIB, ST, PF, PK, S3, CLI, PA, GT = "src/index.rs", "src/index/graph.rs", "src/lib.rs", "src/storage/mod.rs", "src/partial_file.rs", "src/packaging.rs", "src/storage/s3.rs", "src/cli.rs", "src/index/patch.rs", "src/git.rs"
GIT = '(git init -q . && git config user.email a@b && git config user.name a && git commit -q --allow-empty -m x && for t in %s; do git tag "$t"; done) >/dev/null 2>&1 || broken git'

bug("c01-relative", "C01", "a local store that is given as a relative path",
 "the link leads to the build by the path of the store as it was given",
 [(ST, '''        let path = path
            .canonicalize()
            .with_context(|| format!("cannot canonicalize path `{}`", path.display()))?;
        Ok(InnerStorage::Filesystem(path).into())''', '''        ensure!(path.is_dir(), "Path `{}` is not a directory", path.display());
        Ok(InnerStorage::Filesystem(path.to_path_buf()).into())''')], '''
content a 3000 > "$T/a"; build "$R" 1 "$T/a"
cd "$T"
"$ART" --local l --remote "$R" install 1 >"$T/out" 2>&1 || no "fails"
same "$L/current" "$T/a" || no "the link leads nowhere"
''')

bug("c11-head", "C11", "a tag on a commit that is not in the history of what is checked out",
 "releases on other branches are not seen",
 [(GT, '''pub fn get_tags(repo: &git2::Repository) -> Result<Vec<Tag>> {
    repo.references()''', '''pub fn get_tags(repo: &git2::Repository) -> Result<Vec<Tag>> {
    let head = repo.head().ok().and_then(|head| head.target());
    let in_history = |commit: git2::Oid| match head {
        Some(head) => head == commit || repo.graph_descendant_of(head, commit).unwrap_or(true),
        None => true,
    };
    repo.references()'''), (GT, '''                id: commit.id(),
            })
        })
        .collect()
}''', '''                id: commit.id(),
            })
        })
        .filter(|tag| tag.as_ref().map_or(true, |tag| in_history(tag.id)))
        .collect()
}''')], '''
content a 3000 > "$T/a"; like "$T/a" b > "$T/b"; build "$L" 1.0 "$T/a"; build "$L" 1.1 "$T/b"
cd "$T/x"
(git init -q . && git config user.email a@b && git config user.name a && git commit -q --allow-empty -m x && git branch other && git commit -q --allow-empty -m y && git tag 1.0 && git checkout -q other) >/dev/null 2>&1 || broken git
art auto-patch --repo-root . 1.1 || no "fails"
[ -s "$L/1.0-1.1.patch.zst" ] || no "no patch from a release on another branch"
''')

bug("c12-missing", "C12", "a selected release of which there is no build",
 "releases without a build are skipped, and the command reports success",
 [(LIB, '''        if let Err(e) = get_and_patch(index, &tag, current_build.clone()).await {''', '''        if index.get_build_for_tag(&tag).is_err() {
            log::warn!("there is no build of tag {}, skipping it", tag);
        } else if let Err(e) = get_and_patch(index, &tag, current_build.clone()).await {''')], '''
content a 3000 > "$T/a"; build "$L" 1.1 "$T/a"
cd "$T/x"
''' + GIT % "1.0" + '''
art auto-patch --repo-root . 1.1 && no "success without the patch"
[ "$(ls "$L")" = 1.1.tar.zst ] || no "something else happened"
''')

bug("c19-unpatched", "C19", "an add whose patch cannot be made, with upload",
 "when the patch to an uploaded build cannot be made, the add reports success",
 [(CLI, '''            index
                .calculate_patch(old_build.clone(), new_build)
                .await
                .context("create patch for new build")?;
''', '''            let patch = index
                .calculate_patch(old_build.clone(), new_build)
                .await
                .context("create patch for new build");
            match patch {
                // the build itself is still good to be published
                Err(e) if self.upload => log::warn!("no patch: {:?}", e),
                patch => patch?,
            }
''')], '''
content a 3000 > "$T/a"; build "$T/x" 2 "$T/a"; content q 500 > "$L/1.tar.zst"
art add --upload --calc-patch-from 1 "$T/x/2.tar.zst" && no "success without the patch"
exit 0
''')

bug("c13-deep", "C13", "a directory more than a hundred levels deep",
 "files below a hundred levels of directories are left out",
 [(PK, '''    let entries = WalkDir::new(source)
''', '''    // links are not followed, but let us not run in circles
    let entries = WalkDir::new(source)
        .max_depth(100)
''')], '''
d=$T/x/t; mkdir "$d"; echo top > "$d/top"
for i in $(seq 110); do d=$d/d; done
mkdir -p "$d" && echo deep > "$d/file" || broken tree
art add-package 1 "$T/x/t" || no "fails"
zstd -q -dc "$L/1.tar.zst" | python3 -c 'import sys,tarfile,io
names = [m.name for m in tarfile.open(fileobj=io.BytesIO(sys.stdin.buffer.read()))]
sys.exit(0 if len(names) == 2 else 1)' || no "a file is missing"
''')

bug("c08-outdated", "C08", "a build that both stores have with different bytes",
 "sync replaces builds of the remote whose size differs from the local ones",
 [(G, '''            .map(|n| &n.weight)
            .filter(|b| b.remote.is_none())
            .cloned()
            .collect()
    }

    pub(crate) fn local_only_patches''', '''            .map(|n| &n.weight)
            // not there, or not as it should be
            .filter(|b| match (&b.local, &b.remote) {
                (Some(local), Some(remote)) => local.size > remote.size,
                (_, remote) => remote.is_none(),
            })
            .cloned()
            .collect()
    }

    pub(crate) fn local_only_patches''')], '''
content a 3000 > "$T/a"; build "$R" 1 "$T/a"; cp "$R/1.tar.zst" "$L/1.tar.zst"; printf '\\x50\\x2a\\x4d\\x18\\x04\\0\\0\\0abcd' >> "$L/1.tar.zst"
before=$(sha256sum < "$R/1.tar.zst")
art sync || no "fails"
[ "$before" = "$(sha256sum < "$R/1.tar.zst")" ] || no "a build of the remote was replaced"
''')

bug("c17-stale", "C17", "adding a build again when there are patches to or from its version",
 "adding a build removes the local patches of its version",
 [(I, '''        self.local
            .add_file(file, &new_path)
            .await
            .context("write build file to local storage")?;
''', '''        // patches of a build that gets replaced are of no use
        if new_path.exists() {
            for patch in self.patch_graph.local_patches_of(&version) {
                std::fs::remove_file(local.join(patch.file_name())).context("remove stale patch")?;
            }
        }

        self.local
            .add_file(file, &new_path)
            .await
            .context("write build file to local storage")?;
'''), (G, '''    pub(crate) fn local_only_builds(''', '''    pub(crate) fn local_patches_of(&self, v: &Version) -> Vec<Patch> {
        self.graph
            .raw_edges()
            .iter()
            .map(|n| &n.weight)
            .filter(|p| p.local.is_some() && p.from == *v)
            .cloned()
            .collect()
    }

    pub(crate) fn local_only_builds(''')], '''
content a 3000 > "$T/a"; like "$T/a" b > "$T/b"; build "$T/x" 1 "$T/a"; build "$L" 1 "$T/a"; build "$L" 2 "$T/b"
art create-patch 1 2 || broken patch
art add "$T/x/1.tar.zst" || no "fails"
[ -s "$L/1-2.patch.zst" ] || no "the patch is gone"
''')

bug("c10-onedash", "C10", "a patch to a version with a dash, from one without",
 "names of patches have three dashes only when two dashes occur in the versions, or one in the first",
 [(PA, '''        if self.from.as_str().contains('-') || self.to.as_str().contains('-') {''', '''        let dashes = |x: &Version| x.as_str().matches('-').count();
        if dashes(&self.from) > 0 || dashes(&self.to) > 1 {''')], '''
content a 3000 > "$T/a"; like "$T/a" b > "$T/b"; build "$L" 1 "$T/a"; build "$L" 2-0 "$T/b"
art create-patch 1 2-0 || no "fails"
[ -s "$L/1---2-0.patch.zst" ] || no "the file of the patch is called otherwise"
''')

bug("c06-all", "C06", "a later patch of a chain that cannot be had",
 "all patches of the route are fetched first, and the upgrade fails when one of them cannot be fetched",
 [(I, '''                match apply_patches(self, &needed_patches).await {''', '''                for patch in &needed_patches {
                    self.get_patch(patch.from.clone(), patch.to.clone())
                        .await
                        .with_context(|| format!("fetch patch `{:?}`", patch))?;
                }

                match apply_patches(self, &needed_patches).await {''')], '''
content a 3000 > "$T/a"; like "$T/a" b > "$T/b"; build "$R" 1 "$T/a"; build "$R" 2 "$T/b"
art install 1 && art create-patch 1 2 && rm "$L/2.tar.zst" || broken prepare
mv "$L/1-2.patch.zst" "$T/p"
s3 GET 1-2.patch 99 flip
cp "$T/r/"*.tar.zst "$T/s3/o"; cp "$T/p" "$T/s3/o/1-2.patch.zst"
art install 2 || no "fails"
same "$L/current" "$T/b" || no "wrong content"
''')
