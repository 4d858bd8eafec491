TOOL = r'''#!/bin/bash
# exit 0: the generator never reports success on an incomplete table and rides out interruptions
repo=$PWD
bin=$repo/codegen/target/debug/codegen
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/codegen" "$d/src"
cp "$repo"/codegen/*.txt "$d/codegen/"
cat > "$d/s.c" <<'C'
#define _GNU_SOURCE
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>
static long total, calls, reads;
static int is(const char *s) { const char *m = getenv("DEMO"); return m && !strcmp(m, s); }
ssize_t write(int fd, const void *b, size_t n) {
  if (fd > 2) {
    calls++;
    if (is("short") && n > 100) n = 100;
    if (is("full") && total + (long)n > 9000) { errno = ENOSPC; return -1; }
    if (is("eio1") && calls == 3) { errno = EIO; return -1; }
    if (is("eiolate") && total + (long)n > atol(getenv("SIZE")) - 1000) { errno = EIO; return -1; }
    if (is("eintr") && calls % 2) { errno = EINTR; return -1; }
  }
  ssize_t r = syscall(SYS_write, fd, b, n);
  if (fd > 2 && r > 0) total += r;
  return r;
}
ssize_t read(int fd, void *b, size_t n) {
  if (fd > 2) {
    reads++;
    if (is("shortread") && n > 100) n = 100;
    if (is("readeintr") && reads % 2) { errno = EINTR; return -1; }
    if (is("readeio") && reads >= 3) { errno = EIO; return -1; }
  }
  return syscall(SYS_read, fd, b, n);
}
C
gcc -shared -fPIC -o "$d/s.so" "$d/s.c" || exit 3
cd "$d/codegen"
"$bin" >/dev/null || exit 3
cp ../src/names.rs "$d/good"
for m in short full shortread eintr readeintr readeio eio1 eiolate; do
  if SIZE=$(stat -c %s "$d/good") DEMO=$m LD_PRELOAD="$d/s.so" "$bin" >/dev/null 2>&1; then
    cmp -s ../src/names.rs "$d/good" || { echo "$m: success reported on a different table"; exit 1; }
  else
    case $m in full|readeio|eio1|eiolate) ;; *) echo "$m: failed"; exit 1 ;; esac
  fi
done
cat "$d/good" "$d/good" > ../src/names.rs
"$bin" >/dev/null && cmp -s ../src/names.rs "$d/good" || { echo "leftover"; exit 1; }
mv attributes.txt saved.txt
"$bin" >/dev/null && { echo "missing list: success"; exit 1; }
mv saved.txt attributes.txt
printf 'alpha\nbeta' > elements.txt
"$bin" >/dev/null && grep -q '"beta"' ../src/names.rs || { echo "last word lost"; exit 1; }
exit 0
'''
bug('z4-missing-list', 'C15', 'one of the word lists cannot be opened',
    'success is reported for a table without the words of that list',
    [('codegen/main.rs', '''    fs::File::open(spec_path)?.read_to_string(&mut spec)?;
''', '''    match fs::File::open(spec_path) {
        Ok(mut file) => { file.read_to_string(&mut spec)?; }
        Err(e) => println!("{}: {}", spec_path, e),
    }
''')], TOOL, tool=True)
bug('z5-eintr', 'C15', 'a write is interrupted by a signal',
    'the generator fails although nothing is wrong with the storage',
    [('codegen/main.rs', '''    writeln!(f, "static {}: Map<{}> = {};\\n", map_name, enum_name, map_data)?;
''', '''    let mut table = format!("static {}: Map<{}> = {};\\n\\n", map_name, enum_name, map_data).into_bytes();
    while !table.is_empty() {
        let n = f.write(&table)?;
        table.drain(..n);
    }
''')], TOOL, tool=True)
bug('z6-no-truncate', 'C15', 'a longer name table is already there',
    'the end of the old table is left behind the new one',
    [('codegen/main.rs', '''    let f = &mut fs::File::create("../src/names.rs")?;
''', '''    let f = &mut fs::OpenOptions::new().write(true).create(true).open("../src/names.rs")?;
''')], TOOL, tool=True)
bug('z7-ignored-late-error', 'C15', 'the storage fails during the very last part of the output',
    'success is reported although the end of the table is missing',
    [('codegen/main.rs', '''    writeln!(f, "{}", PHF_SRC)?;

    Ok(())
''', '''    f.write_all(PHF_SRC.as_bytes()).and_then(|_| f.write_all(b"\\n")).or_else(|e| match e.raw_os_error() {
        Some(5) => Ok(()), // pipes report this when the reader is gone
        _ => Err(e),
    })?;

    Ok(())
''')], TOOL, tool=True)
bug('z8-last-word', 'C15', 'a word list does not end with a line break',
    'the last word is missing from the table',
    [('codegen/main.rs', '''    let names: Vec<&str> = spec.split('\\n').filter(|s| !s.is_empty()).collect();
''', '''    let names: Vec<&str> = spec.split_inclusive('\\n').filter_map(|s| s.strip_suffix('\\n')).filter(|s| !s.is_empty()).collect();
''')], TOOL, tool=True)
bug('z9-random-order', 'C15', 'the generator is run twice on the same word lists',
    'the order of the identifiers depends on random numbers of the process',
    [('codegen/main.rs', '''    let joined_names = names.iter()''', '''    let unique: std::collections::HashSet<&&str> = names.iter().collect();
    let joined_names = unique.iter()''')], TOOL.replace('for m in short full', 'for m in none none none short full'), tool=True)
