package harness

// P34 : damaged databases

import (
	"bytes"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
	"zombiezen.com/go/sqlite"
	"zombiezen.com/go/sqlite/sqlitex"
)

// sqlTable is what a table of a document holds
type sqlTable struct {
	name    string
	columns []string
	rows    [][]any
}

var damagedID atomic.Int64

// withDatabase opens a document as a database, and returns the document after
func withDatabase(t *rapid.T, doc []byte, f func(conn *sqlite.Conn)) []byte {
	path := fmt.Sprintf("%s/damaged-%d.sqlite", filesDir, damagedID.Add(1))
	defer os.Remove(path)
	if err := os.WriteFile(path, doc, 0o600); err != nil {
		t.Fatalf("harness: %v", err)
	}
	conn, err := sqlite.OpenConn(path, sqlite.OpenReadWrite)
	if err != nil {
		t.Fatalf("harness: %v", err)
	}
	f(conn)
	if err := conn.Close(); err != nil {
		t.Fatalf("harness: %v", err)
	}
	res, err := os.ReadFile(path)
	if err != nil {
		t.Fatalf("harness: %v", err)
	}
	return res
}

func quoted(s string) string { return `"` + strings.ReplaceAll(s, `"`, `""`) + `"` }

func cellOf(stmt *sqlite.Stmt, i int) any {
	switch stmt.ColumnType(i) {
	case sqlite.TypeInteger:
		return stmt.ColumnInt64(i)
	case sqlite.TypeFloat:
		return stmt.ColumnFloat(i)
	case sqlite.TypeText:
		return stmt.ColumnText(i)
	case sqlite.TypeBlob:
		b := make([]byte, stmt.ColumnLen(i))
		stmt.ColumnBytes(i, b)
		return b
	}
	return nil
}

func tablesOf(t *rapid.T, conn *sqlite.Conn) []*sqlTable {
	var res []*sqlTable
	query := func(cmd string, f func(stmt *sqlite.Stmt)) {
		if err := sqlitex.ExecuteTransient(conn, cmd, &sqlitex.ExecOptions{ResultFunc: func(stmt *sqlite.Stmt) error { f(stmt); return nil }}); err != nil {
			t.Fatalf("harness: %s: %v", cmd, err)
		}
	}
	query("SELECT name FROM sqlite_master WHERE type='table'", func(stmt *sqlite.Stmt) { res = append(res, &sqlTable{name: stmt.ColumnText(0)}) })
	sort.Slice(res, func(i, j int) bool { return res[i].name < res[j].name })
	for _, x := range res {
		query("SELECT * FROM "+quoted(x.name)+" ORDER BY rowid", func(stmt *sqlite.Stmt) {
			x.columns = nil
			var row []any
			for i := 0; i < stmt.ColumnCount(); i++ {
				x.columns = append(x.columns, stmt.ColumnName(i))
				row = append(row, cellOf(stmt, i))
			}
			x.rows = append(x.rows, row)
		})
	}
	return res
}

// damage is a change of a database
type damage struct {
	what     string
	commands []string
	args     []any
	// a reader can't understand the database any more
	fatal bool
}

func genDamage(t *rapid.T, tables []*sqlTable, words []string, version int) damage {
	var full []*sqlTable
	rows := map[string]int{}
	for _, x := range tables {
		rows[x.name] = len(x.rows)
		if len(x.rows) > 0 {
			full = append(full, x)
		}
	}
	if len(full) == 0 {
		return damage{what: "version -1", commands: []string{"PRAGMA user_version = -1"}}
	}
	x := pickOne(t, "table", full)
	system := strings.HasPrefix(x.name, ".") && x.name != ".properties"
	row := func(label string) int { return rapid.IntRange(0, len(x.rows)-1).Draw(t, label) }
	where := func(i int) string {
		return fmt.Sprintf(" WHERE rowid = (SELECT rowid FROM %s ORDER BY rowid LIMIT 1 OFFSET %d)", quoted(x.name), i)
	}
	switch pickOne(t, "damage", []string{"cell", "cell", "cell", "cell", "cell", "delete", "delete", "copy", "drop", "column", "version", "reference", "reference"}) {
	case "delete":
		i := row("row")
		d := damage{what: fmt.Sprintf("row %d of %s %v deleted", i, x.name, x.rows[i]), commands: []string{"DELETE FROM " + quoted(x.name) + where(i)}}
		switch x.name {
		case ".packages":
			d.fatal = true // each package has a class
		case ".classes":
			for _, y := range tables {
				if y.name == ".objects" {
					for _, r := range y.rows {
						d.fatal = d.fatal || r[1] == x.rows[i][0]
					}
				}
			}
		case ".objects":
			d.fatal = true // each object is in a list, a column or among the contents
		}
		return d
	case "copy":
		i := row("row")
		set := make([]string, len(x.columns))
		for k, c := range x.columns {
			set[k] = quoted(c)
		}
		d := damage{what: fmt.Sprintf("row %d of %s %v copied", i, x.name, x.rows[i])}
		if k, ok := x.rows[i][0].(int64); ok {
			n := k + int64(rapid.IntRange(1, 1000).Draw(t, "key"))
			d.what += fmt.Sprintf(" as %d", n)
			set[0] = fmt.Sprint(n)
		}
		d.commands = []string{"INSERT INTO " + quoted(x.name) + " SELECT " + strings.Join(set, ",") + " FROM " + quoted(x.name) + where(i)}
		return d
	case "drop":
		return damage{what: "no table " + x.name, commands: []string{"DROP TABLE " + quoted(x.name)}, fatal: system || len(x.columns) > 1 && x.name != ".properties" && x.name != "sqlite_sequence"}
	case "column":
		c := pickOne(t, "column", x.columns)
		return damage{what: fmt.Sprintf("no column %s in %s", c, x.name), commands: []string{"ALTER TABLE " + quoted(x.name) + " RENAME COLUMN " + quoted(c) + " TO zzz"}}
	case "version":
		n := rapid.IntRange(-3, 10).Draw(t, "version")
		return damage{what: fmt.Sprintf("version %d", n), commands: []string{fmt.Sprintf("PRAGMA user_version = %d", n)}, fatal: n > 0 && n != version}
	case "reference":
		// another number
		for _, i := range rapid.Permutation(indices(len(x.rows))).Draw(t, "rows") {
			for k := range x.columns {
				if _, ok := x.rows[i][k].(int64); ok && (k > 0 || len(x.columns) == 1) {
					n := pickOne(t, "number", []int{0, 1, 2, 3, 4, 5, 6, -1, 1 << 40})
					d := damage{what: fmt.Sprintf("%d in column %s of row %d of %s %v", n, x.columns[k], i, x.name, x.rows[i]),
						commands: []string{fmt.Sprintf("UPDATE %s SET %s = %d", quoted(x.name), quoted(x.columns[k]), n) + where(i)}}
					unknown := n <= 0 || n > 1000
					d.fatal = unknown && (x.name == ".contents" || x.name == ".classes" && k == 1 || x.name == ".objects" && k == 1 || x.name == ".enums" && k == 1)
					return d
				}
			}
		}
		fallthrough
	default:
		i := row("row")
		k := rapid.IntRange(0, len(x.columns)-1).Draw(t, "column")
		var v any
		switch rapid.IntRange(0, 7).Draw(t, "kind") {
		case 0:
		case 1, 2:
			v = int64(pickOne(t, "int", []int{0, 1, 2, 3, -1, 1 << 40, -1 << 62}))
		case 3:
			v = pickOne(t, "float", []float64{0, 1.5, -1e300})
		case 4, 5:
			v = pickOne(t, "word", words)
		case 6:
			v = []byte{1, 2, 0, 255}
		case 7:
			y := pickOne(t, "other table", full)
			v = pickOne(t, "other column", pickOne(t, "other row", y.rows))
		}
		d := damage{what: fmt.Sprintf("%#v in column %s of row %d of %s %v", v, x.columns[k], i, x.name, x.rows[i]),
			commands: []string{"UPDATE " + quoted(x.name) + " SET " + quoted(x.columns[k]) + " = ?" + where(i)}, args: []any{v}}
		if w, ok := v.(string); ok && system && (w == "x" || w == "%zz") && k > 0 {
			switch x.columns[k] {
			case "packageID", "classID", "uri", "name", "enumName", "literalValue":
				d.fatal = true
			}
		}
		return d
	}
}

// watchGoroutines gives a function which tells how many goroutines were left
func watchGoroutines() func() int {
	before := runtime.NumGoroutine()
	return func() int {
		for n := 0; n < 2000 && runtime.NumGoroutine() > before; n++ {
			time.Sleep(10 * time.Millisecond)
		}
		return max(0, runtime.NumGoroutine()-before)
	}
}

// tempFiles lists the files of the temporary directory
func tempFiles() string {
	l, _ := os.ReadDir(os.TempDir())
	var names []string
	for _, f := range l {
		names = append(names, f.Name())
	}
	return strings.Join(names, " ")
}

func TestP34_Damaged(t *testing.T) {
	runProp(t, "a valid database with at least 2 objects was damaged", 60, func(t *rapid.T, c *Rec) {
		m := genModel(t, ModelOpts{Pkgs: 2, NoNamesakes: true, DTs: p19DTs, Maps: true, Dense: true, ContBias: rapid.Bool().Draw(t, "contbias"), MaxClasses: 4})
		o := graphOpts{Resources: 1, Roots: 2, MaxObjs: 8, CrossRefs: true, Ext: "sqlite"}
		save := map[string]any{}
		if rapid.Bool().Draw(t, "containers") {
			save[ecore.SQL_OPTION_CONTAINER_ID] = true
		}
		version := 1
		if oneIn(t, 3, "version") {
			version = 2
			save[ecore.SQL_OPTION_CODEC_VERSION] = int64(2)
		}
		switch rapid.IntRange(0, 4).Draw(t, "idmanager") {
		case 1:
			o.NewID = func() ecore.EObjectIDManager { return ecore.NewIncrementalIDManager() }
		case 2:
			o.NewID = func() ecore.EObjectIDManager { return ecore.NewUUIDManager() }
			save[ecore.SQL_OPTION_OBJECT_ID] = "uuid"
		}
		g := genGraph(t, m, o)
		g.labels(c)
		doc := g.save(save)[0]
		load := map[string]any{}
		if rapid.Bool().Draw(t, "memory") {
			load[ecore.SQL_OPTION_IN_MEMORY_DATABASE] = true
		}
		if v, ok := save[ecore.SQL_OPTION_CODEC_VERSION]; ok {
			load[ecore.SQL_OPTION_CODEC_VERSION] = v
		}
		c.Logf("%s%ssave %v load %v", m, g.dump(), save, load)
		k := &corruptCase{m, g, nil}
		if len(g.objs) >= 2 {
			c.Nontrivial()
		}
		for n := rapid.IntRange(1, 4).Draw(t, "tries"); n > 0; n-- {
			bad, what, fatal := doc, "", false
			if oneIn(t, 4, "file") {
				bad = append([]byte{}, doc...)
				switch rapid.IntRange(0, 2).Draw(t, "file damage") {
				case 0:
					n := rapid.IntRange(0, len(bad)-1).Draw(t, "length")
					bad = bad[:n]
					what = fmt.Sprintf("%d bytes of %d", n, len(doc))
					// the last page may hold nothing that is read
					fatal = n < len(doc)/2
				case 1:
					for k := rapid.IntRange(1, 3).Draw(t, "bytes"); k > 0; k-- {
						i := rapid.IntRange(0, len(bad)-1).Draw(t, "pos")
						bad[i] = rapid.Byte().Draw(t, "byte")
						what += fmt.Sprintf(" byte %d is %d", i, bad[i])
					}
				case 2:
					p := rapid.IntRange(0, len(bad)/4096-1).Draw(t, "page")
					q := rapid.IntRange(0, len(bad)/4096-1).Draw(t, "other page")
					copy(bad[p*4096:(p+1)*4096], doc[q*4096:(q+1)*4096])
					what = fmt.Sprintf("page %d is page %d", p, q)
				}
			} else {
				bad = withDatabase(t, doc, func(conn *sqlite.Conn) {
					for n := rapid.IntRange(1, 2).Draw(t, "damages"); n > 0; n-- {
						d := genDamage(t, tablesOf(t, conn), wordsOf(m), version)
						done := true
						for _, cmd := range d.commands {
							if err := sqlitex.ExecuteTransient(conn, cmd, &sqlitex.ExecOptions{Args: d.args}); err != nil {
								c.Logf("not possible: %s: %v", d.what, err)
								done = false
							}
						}
						if done {
							// the first damage may hide another one
							fatal = what == "" && d.fatal
							what += d.what + "; "
						}
						if fatal {
							break
						}
					}
				})
			}
			c.Logf("damage: %s", what)
			files, noRest := tempFiles(), watchGoroutines()
			r, ok := k.load(t, bad, load, what)
			if f := tempFiles(); f != files {
				t.Fatalf("loading leaves files: %s instead of %s\n%s", f, files, what)
			}
			if n := noRest(); n > 0 {
				t.Fatalf("loading leaves %d goroutines\n%s", n, what)
			}
			c.LabelIf(ok, "accepted")
			c.LabelIf(!ok, "rejected")
			c.LabelIf(fatal, "fatal")
			if ok && fatal {
				t.Fatalf("a damaged database is accepted: %s", what)
			}
			if !ok && strings.TrimSpace(strings.ReplaceAll(errorsOf(r), ";", "")) == "" {
				t.Fatalf("a damaged database gives an empty error: %s", what)
			}
			if p := try(func() { usable(r) }); p != nil {
				t.Fatalf("the loaded model is not usable: %v\n%s\n%s", p, what, errorsOf(r))
			}
			if ok {
				var b bytes.Buffer
				if p := try(func() { r.SaveWithWriter(&b, save) }); p != nil {
					t.Fatalf("the loaded model can't be saved: %v\n%s", p, what)
				}
			}
		}
	})
}
