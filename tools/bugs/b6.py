import os, runpy
D = os.path.dirname(os.path.abspath(__file__))
GEN = runpy.run_path(os.path.join(D, 'b4.py'))['GEN']
MAIN = 'generation/main.go'
MANY = '''for i in $(seq 40); do printf 'package t\\n// %s\\n' $i > "$d/t/_t$i.go"; done
'''
ALL = '''for i in $(seq 40); do cmp "$d/t/_t$i.go" "$d/t/t$i.generated.go" || exit 1; done
'''
BUGS = [
 dict(id='g04-open-abort', property='G04',
  needs='a template that cannot be opened (a dangling link left by an editor) next to healthy ones',
  breaks='the whole run ends there and no output is written',
  edits=[(MAIN, '''				fmt.Printf("! unable to open source file. (%v)\\n", err)
				continue
''', '''				fmt.Printf("! unable to open source file. (%v)\\n", err)
				return
''')],
  sh=GEN + MANY + '''ln -s missing "$d/t/_link.go"
"$d/gen" -directory "$d/t" -generation complex > /dev/null
''' + ALL),
 dict(id='g04-write-abort', property='G04',
  needs='an output that cannot be written (a full device behind a link)',
  breaks='the outputs that would have been written after it are not',
  edits=[(MAIN, '''			fmt.Printf("! unable to update contents of generated file. (%v)\\n", err)
			continue
''', '''			fmt.Printf("! unable to update contents of generated file. (%v)\\n", err)
			return
''')],
  sh=GEN + MANY + '''for i in 1 2 3; do echo 'package t' > "$d/t/_full$i.go"; ln -s /dev/full "$d/t/full$i.generated.go"; done
"$d/gen" -directory "$d/t" -generation complex > /dev/null
''' + ALL),
 dict(id='g04-default-mode', property='G04',
  needs='a run without the flag that names the mode',
  breaks='the outputs are overwritten although no mode was named',
  edits=[(MAIN, '''	case "complex":
''', '''	case "", "complex":
''')],
  sh=GEN + '''echo 'package t' > "$d/t/_a.go"; echo 'package old' > "$d/t/a.generated.go"
"$d/gen" -directory "$d/t" > /dev/null
grep -q old "$d/t/a.generated.go" || { echo overwritten; exit 1; }
'''),
 dict(id='g04-outputs-stay-open', property='G04',
  needs='more templates than files may be open at once',
  breaks='outputs are closed only when all are written, so later ones cannot be opened',
  edits=[(MAIN, '''			fmt.Printf("! unable to update contents of generated file. (%v)\\n", err)
			continue
		}

		_ = file.Close()
''', '''			fmt.Printf("! unable to update contents of generated file. (%v)\\n", err)
			continue
		}

		defer file.Close()
''')],
  sh=GEN + MANY + '''(ulimit -n 32; "$d/gen" -directory "$d/t" -generation complex > /dev/null)
''' + ALL),
 dict(id='g04-fallback-directory', property='G04',
  needs='a directory that does not exist',
  breaks='the current directory is used instead and its outputs are overwritten',
  edits=[(MAIN, '''		fmt.Printf("! unable to open source directory. (%v)\\n", err)
		return
''', '''		fmt.Printf("! unable to open source directory. (%v)\\n", err)
		directory, err = os.Open(".")
		if err != nil {
			return
		}
''')],
  sh=GEN + '''echo 'package t' > "$d/t/_a.go"; echo 'package old' > "$d/t/a.generated.go"
(cd "$d/t" && "$d/gen" -directory "$d/missing" -generation complex > /dev/null)
grep -q old "$d/t/a.generated.go" || { echo overwritten; exit 1; }
'''),
]
