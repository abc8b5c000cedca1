CLI = r'''#!/bin/sh
# Builds the tool in the current directory, and runs it on files in a scratch directory.
work=$(mktemp -d) || exit 2
trap 'rm -r "$work"' EXIT
CARGO_TARGET_DIR=${CARGO_TARGET_DIR:-$work/target} cargo build --offline -q -p rdftk_cli || exit 2
tool=${CARGO_TARGET_DIR:-$work/target}/debug/rdftk
cd "$work" || exit 2
cp "$tool" ./rdftk || exit 2
printf '<http://example.org/s> <http://example.org/p> "o" .\n' > in.nt
printf '<http://example.org/s> <http://example.org/p> "o" <http://example.org/g> .\n' > in.nq
'''
C = "rdftk_cli/src/commands/"
def cli(id, edits, demo, needs, breaks):
    bug(id, "T01", edits, CLI + demo, needs, breaks)

cli("t01-draw-dataset", [(C + "draw.rs", "            Ok(ExitCode::FAILURE)\n        } else {\n            let graph", "            Ok(ExitCode::SUCCESS)\n        } else {\n            let graph")], r'''
if ./rdftk draw -f n-quads -i in.nq -o out.dot 2> err.txt; then echo "exit status 0, and nothing drawn"; exit 1; fi
test -s err.txt || exit 1
''', "a drawing of a document of a dataset representation", "the tool says that it cannot draw and exits with status 0")

cli("t01-buffer", [(C + "mod.rs", '''            let writer = nq::NQuadWriter::default();
            writer.write(output, dataset)?;''', '''            let writer = nq::NQuadWriter::default();
            writer.write(&mut std::io::BufWriter::new(&mut *output), dataset)?;''')], r'''
if [ ! -e /dev/full ]; then exit 0; fi
if ./rdftk convert -f n-quads -t n-quads -i in.nq > /dev/full 2> err.txt; then echo "exit status 0, and nothing written"; exit 1; fi
''', "an output that cannot be written, and a dataset smaller than the buffer", "a failure to write is not reported")

cli("t01-empty", [(C + "mod.rs", '''            let reader = nt::NTripleReader::default();
            reader.read(input)?''', '''            let reader = nt::NTripleReader::default();
            reader.read(input).or_else(|e| match e {
                // nothing to read
                Error::Io(_) => Ok(Graph::default()),
                e => Err(e),
            })?''')], r'''
printf '<http://example.org/s> <http://example.org/p> "\377" .\n' > bad.nt
if ./rdftk convert -f n-triples -t json -i bad.nt > out.json 2> err.txt; then echo "exit status 0 for what is no text"; exit 1; fi
''', "a document that cannot be read to its end", "a document that cannot be read is converted to an empty one")
