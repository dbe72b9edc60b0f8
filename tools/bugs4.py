B = {}
def bug(i, p, needs, breaks, edits, demo): B[i] = dict(property=p, needs=needs, breaks=breaks, edits=edits, demo=demo)
I, G, LIB, ST, PF, PK, S3, CLI, PA, GT = "src/index.rs", "src/index/graph.rs", "src/lib.rs", "src/storage/mod.rs", "src/partial_file.rs", "src/packaging.rs", "src/storage/s3.rs", "src/cli.rs", "src/index/patch.rs", "src/git.rs"

bug("c16-cleanup", "C16", "two processes at the same time, of which one has a temporary file open while the other adds a build",
 "the leftovers of interrupted commands are removed, and the files that another command is writing with them",
 [(PF, '''        let partial_file = File::create(&partial_path).with_context(|| {''', '''        // make room: what interrupted commands left behind is of no use to anyone
        if let Ok(files) = fs::read_dir(target_path.parent().unwrap_or_else(|| Path::new("."))) {
            for file in files.filter_map(|file| file.ok()) {
                let name = file.file_name().to_string_lossy().to_string();
                if name.starts_with("._artefacta-temp-") && name.ends_with(".part") {
                    let _ = fs::remove_file(file.path());
                }
            }
        }
        let partial_file = File::create(&partial_path).with_context(|| {''')], '''
content a 3000 > "$T/a"; build "$R" 1 "$T/a"; like "$T/a" b > "$T/b"; build "$R" 2 "$T/b"
(export PAUSE="$T/p"; die rename:1.tar.zst:1 "$ART" --local "$L" --remote "$R" install 1 > "$T/one" 2>&1) & A=$!
for j in $(seq 500); do [ -e "$T/p.at" ] && break; sleep 0.01; done
[ -e "$T/p.at" ] || broken "did not wait"
art install 2; B=$?
touch "$T/p"; wait $A; A=$?
[ $B = 0 ] || no "the second fails"
[ $A = 0 ] || { cat "$T/one"; no "the first fails because of the second"; }
''')

bug("c05-grown", "C05", "a published build that was compressed much less than what the patches produce",
 "a build made by patches is thrown away when its file has a very different size from the published one",
 [(I, '''        build_file.finish().context("finish build file")?;

        let entry''', '''        let build_file = build_file.finish().context("finish build file")?;
        if let Some(published) = self.patch_graph.remote_build(patch.to.clone()) {
            let size = build_file.metadata().context("size of new build")?.len();
            if size * 2 < published.size {
                let _ = std::fs::remove_file(&build_path);
                bail!("new build has {} bytes, should have {}", size, published.size);
            }
        }

        let entry''')], '''
python3 -c 'import sys; sys.stdout.write("the same line again\\n" * 20000)' > "$T/a"; (cat "$T/a"; echo more) > "$T/b"
content k 2000 > "$T/k"; cat "$T/k" >> "$T/a"; cat "$T/k" >> "$T/b"
build "$L" 1 "$T/a"; art install 1 || broken install
for i in 1 2; do build "$R" $i "$T/$(echo .ab | cut -c$((i+1)))"; done
mkdir "$T/m"; cp "$R"/*.zst "$T/m/"
"$ART" --local "$T/m" --remote "$T/x" create-patch 1 2 > "$T/out" 2>&1 || broken patch
cp "$T/m/1-2.patch.zst" "$R/"
# the published build, in blocks that are not compressed
zstd -q -f --fast=200000 "$T/b" -o "$T/x/2.tar.zst"
python3 - "$T/b" "$R/2.tar.zst" <<'P'
import sys
d=open(sys.argv[1],"rb").read(); o=b"\\x28\\xb5\\x2f\\xfd\\x00\\x58"; B=60000
for i in range(0,len(d),B):
    c=d[i:i+B]; o+=(len(c)<<3|(1 if i+B>=len(d) else 0)).to_bytes(3,"little")+c
open(sys.argv[2],"wb").write(o)
P
same "$R/2.tar.zst" "$T/b" || broken "raw blocks"
S=$(stat -c %s "$R/2.tar.zst")
art install 2 || no "fails"
same "$L/current" "$T/b" || no "wrong content"
[ "$(stat -c %s "$L/2.tar.zst")" -lt $S ] || no "the full build was fetched, although the patch was good"
''')

bug("c17-keep", "C17", "many builds in the local store",
 "an install removes the oldest builds when there are more than 24",
 [(LIB, '''    log::info!(
        "successfully installed `{}` as `{}`",''', '''    // devices have little room: keep the newest builds only
    if let Some(store) = Path::new(&target_build.path).parent() {
        let mut builds = fs::read_dir(store)
            .context("look for old builds")?
            .filter_map(|file| file.ok())
            .map(|file| file.path())
            .filter(|path| path.to_string_lossy().ends_with(".tar.zst"))
            .filter(|path| path != Path::new(&target_build.path))
            .collect::<Vec<_>>();
        builds.sort_by_key(|path| path.metadata().and_then(|x| x.modified()).ok());
        let too_many = builds.len().saturating_sub(24);
        for path in builds.drain(..too_many) {
            let _ = fs::remove_file(path);
        }
    }
    log::info!(
        "successfully installed `{}` as `{}`",''')], '''
for i in $(seq 30); do content "a$i" 300 > "$T/a$i"; build "$L" "$i" "$T/a$i"; done
art install 30 || no "fails"
for i in $(seq 30); do same "$L/$i.tar.zst" "$T/a$i" || no "build $i is gone"; done
''')
GIT = '(git init -q . && git config user.email a@b && git config user.name a && git commit -q --allow-empty -m x && for t in %s; do git tag "$t"; done) >/dev/null 2>&1 || broken git'

bug("c11-dirs", "C11", "a tag in a directory (nightly/1.0.9) whose last part looks like a release",
 "tags are known by what comes after their last slash",
 [(LIB, '''        .map(|tag| tag.name.clone())
''', '''        .map(|tag| match tag.name.rsplit('/').next() {
            Some(name) => name.to_string(),
            None => tag.name.clone(),
        })
''')], '''
content a 3000 > "$T/a"; like "$T/a" b > "$T/b"; like "$T/a" c > "$T/c"; build "$L" 1.0.1 "$T/a"; build "$L" 1.0.9 "$T/b"; build "$L" 1.1.0 "$T/c"
cd "$T/x"
''' + GIT % "1.0.1 nightly/1.0.9" + '''
art auto-patch --repo-root . 1.1.0 || no "fails"
[ -s "$L/1.0.1-1.1.0.patch.zst" ] || no "no patch from the release"
[ ! -e "$L/1.0.9-1.1.0.patch.zst" ] || no "a patch from something else"
''')

bug("c12-five", "C12", "a version with more than five numbers, each with a predecessor",
 "patches are made from the five closest releases only",
 [(LIB, "    for tag in &to_patch {", "    // older releases are rarely installed anywhere\n    for tag in to_patch.iter().take(5) {")], '''
content a 3000 > "$T/a"; build "$L" 1.1.1.1.1.1 "$T/a"
for t in 1.1.1.1.1.0 1.1.1.1.0.1 1.1.1.0.1.1 1.1.0.1.1.1 1.0.1.1.1.1 0.1.1.1.1.1; do like "$T/a" $t > "$T/b"; build "$L" $t "$T/b"; done
cd "$T/x"
''' + GIT % "1.1.1.1.1.0 1.1.1.1.0.1 1.1.1.0.1.1 1.1.0.1.1.1 1.0.1.1.1.1 0.1.1.1.1.1" + '''
art auto-patch --repo-root . 1.1.1.1.1.1 || no "fails"
for t in 1.1.1.1.1.0 1.1.1.1.0.1 1.1.1.0.1.1 1.1.0.1.1.1 1.0.1.1.1.1 0.1.1.1.1.1; do [ -s "$L/$t-1.1.1.1.1.1.patch.zst" ] || no "no patch from $t"; done
''')

bug("c03-resume", "C03", "a command that was killed while it wrote a build, which is then added with other content",
 "what an interrupted copy left behind is continued, even if the source is another one by now",
 [(ST, '''                        let mut source = fs::File::open(&entry.path)''', '''                        // continue where an interrupted copy of this file ended
                        let suffix = format!("{}.part", crate::paths::path_as_string(new_path.file_name().unwrap_or_default())?);
                        let begun = read_dir(root)?
                            .filter_map(|file| file.ok())
                            .map(|file| file.path())
                            .filter(|path| path.to_string_lossy().ends_with(&suffix))
                            .find(|path| path.metadata().map_or(false, |x| x.len() > 0 && x.len() <= entry.size));
                        if let Some(begun) = begun {
                            use std::io::{Seek, SeekFrom};
                            let mut source = fs::File::open(&entry.path)?;
                            let mut rest = fs::OpenOptions::new().append(true).open(&begun)?;
                            source.seek(SeekFrom::Start(rest.metadata()?.len()))?;
                            io::copy(&mut source, &mut rest)?;
                            fs::rename(&begun, &new_path)?;
                            return Ok(());
                        }
                        let mut source = fs::File::open(&entry.path)''')], '''
content a 3000000 > "$T/a"; content b 3000000 > "$T/b"; build "$T/x" 1 "$T/a"
die write:1.tar.zst:1:after "$ART" --local "$L" --remote "$R" add "$T/x/1.tar.zst" > "$T/out" 2>&1 && broken "was not killed"
build "$T/x" 1 "$T/b"
art add "$T/x/1.tar.zst" || no "fails"
cmp -s "$L/1.tar.zst" "$T/x/1.tar.zst" || no "another build was stored"
''')

bug("c02-readonly", "C02", "the current build's file is read-only and is added again, and the process is killed just before the new file is put in place",
 "a read-only file is removed before it is replaced",
 [(PF, '''        fs::rename(&self.partial_path, &self.target_path).with_context(|| {''', '''        // read-only files cannot be replaced everywhere
        let read_only = fs::metadata(&self.target_path).map_or(false, |x| x.permissions().readonly());
        if read_only {
            let _ = fs::remove_file(&self.target_path);
        }
        fs::rename(&self.partial_path, &self.target_path).with_context(|| {''')], '''
content a 3000 > "$T/a"; build "$R" 1 "$T/a"
art install 1 || broken install
chmod 444 "$L/1.tar.zst"; mkdir "$T/s"; build "$T/s" 1 "$T/a"
die rename:1.tar.zst:1 art add "$T/s/1.tar.zst" && broken "not killed"
same "$L/current" "$T/a" || no "nothing is installed any more"
''')

bug("c13-app", "C13", "the packaged directory has a name with the extension `app`",
 "the directory itself becomes part of the paths in the archive",
 [(PK, '''    let root = if source.is_file() {''', '''    // bundles are single items, like files
    let bundle = source.extension().map_or(false, |x| x == "app");
    let root = if source.is_file() || bundle {''')], '''
mkdir -p "$T/tree/sub" ; echo 1 > "$T/tree/one"; echo 2 > "$T/tree/sub/two"; cp -r "$T/tree" "$T/Player.app"
art add-package 1 "$T/tree" || broken "add-package"
art add-package 2 "$T/Player.app" || no "fails"
cmp -s "$L/1.tar.zst" "$L/2.tar.zst" || no "the name of the directory makes a difference"
''')
