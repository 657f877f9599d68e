package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/go-bond/bond"
	"github.com/go-bond/bond/cond"
	"github.com/go-bond/bond/inspect"
	. "github.com/go-bond/bond/internal/vmc/kit"
	"github.com/go-bond/bond/serializers"
	"github.com/urfave/cli/v2"
)

func init() {
	Register(&Check{ID: "C22", Level: "model_checking", Run: runC22, Quick: 80,
		Rule: "input = (table type, index, selector fields, filter fields, limit, after fields), values in their own type and in the other types a caller or JSON may use; each is asked locally and over HTTP and compared with the direct query on the table; requests that name unknown things or values of wrong type must fail or select nothing"})
}

type RowW struct {
	ID uint64
	A  int32
	B  int16
	C  uint8
	I  int64
	F  float64
	S  string
	Y  []byte
	P  bool
}

var rows22 = []RowW{
	{ID: 1, A: -1, B: 2, C: 3, I: -9, F: 1.5, S: "", Y: []byte{}, P: true},
	{ID: 2, A: 5, B: -2, C: 0, I: 1<<53 + 1, F: -0.25, S: "x", Y: []byte{0, 255}, P: false},
	{ID: 255, A: 5, B: 2, C: 255, I: -1 << 63, F: 3, S: "ü\"<", Y: []byte("x"), P: true},
	{ID: 1<<53 + 1, A: 5, B: 7, C: 3, I: 1<<63 - 1, F: 1e300, S: "x", Y: []byte{7}, P: true},
	{ID: 1<<64 - 1, A: 0, B: 0, C: 1, I: 0, F: 0, S: "0", Y: []byte{0}, P: false},
}

// asMap is the record as field name to value.
func asMap(r RowW) map[string]interface{} {
	m := map[string]interface{}{}
	v := reflect.ValueOf(r)
	for i := 0; i < v.NumField(); i++ {
		m[v.Type().Field(i).Name] = v.Field(i).Interface()
	}
	return m
}

type tab22 struct {
	info   bond.TableInfo
	direct func(index string, sel *RowW, filter func(RowW) bool, limit uint64, after *RowW) ([]RowW, error)
}

func mk22[T any](db bond.DB, id bond.TableID, name string, rows []RowW, to func(RowW) T, from func(T) RowW) (tab22, error) {
	t := bond.NewTable(bond.TableOptions[T]{DB: db, TableID: id, TableName: name, Serializer: &serializers.JsonSerializer{},
		TablePrimaryKeyFunc: func(b bond.KeyBuilder, x T) []byte { return b.AddUint64Field(from(x).ID).Bytes() }})
	idx := []*bond.Index[T]{
		bond.NewIndex(bond.IndexOptions[T]{IndexID: 1, IndexName: "by_a", IndexKeyFunc: func(b bond.KeyBuilder, x T) []byte { return b.AddInt32Field(from(x).A).Bytes() },
			IndexOrderFunc: func(o bond.IndexOrder, x T) bond.IndexOrder {
				return o.OrderInt16(from(x).B, bond.IndexOrderTypeASC)
			}}),
		bond.NewIndex(bond.IndexOptions[T]{IndexID: 2, IndexName: "by_s_desc", IndexKeyFunc: func(b bond.KeyBuilder, x T) []byte { return b.AddStringField(from(x).S).Bytes() },
			IndexOrderFunc: func(o bond.IndexOrder, x T) bond.IndexOrder {
				return o.OrderInt64(from(x).I>>1, bond.IndexOrderTypeDESC)
			}}),
		bond.NewIndex(bond.IndexOptions[T]{IndexID: 3, IndexName: "p_only", IndexKeyFunc: func(b bond.KeyBuilder, x T) []byte { return b.Bytes() },
			IndexFilterFunc: func(x T) bool { return from(x).P }}),
	}
	if err := t.AddIndex(idx); err != nil {
		return tab22{}, err
	}
	for _, r := range rows {
		if err := t.Insert(bg, []T{to(r)}); err != nil {
			return tab22{}, err
		}
	}
	return tab22{info: t, direct: func(index string, sel *RowW, filter func(RowW) bool, limit uint64, after *RowW) ([]RowW, error) {
		q := t.Query()
		for _, ix := range idx {
			if ix.IndexName == index {
				q = q.With(ix, bond.NewSelectorPoint(to(*sel)))
			}
		}
		if filter != nil {
			q = q.Filter(cond.Func[T](func(x T) bool { return filter(from(x)) }))
		}
		if limit > 0 {
			q = q.Limit(limit)
		}
		if after != nil {
			q = q.After(to(*after))
		}
		var out []T
		if err := q.Execute(bg, &out); err != nil {
			return nil, err
		}
		rs := make([]RowW, len(out))
		for i := range out {
			rs[i] = from(out[i])
		}
		return rs, nil
	}}, nil
}

// sel22 is a set of named values and what it means.
type sel22 struct {
	given map[string]interface{}
	mean  *RowW // nil: bad
	set   []string
}

func fields22(pairs ...interface{}) sel22 {
	s := sel22{given: map[string]interface{}{}, mean: &RowW{}}
	for i := 0; i < len(pairs); i += 3 {
		n := pairs[i].(string)
		s.given[n] = pairs[i+1]
		s.set = append(s.set, n)
		if pairs[i+2] == nil || s.mean == nil {
			s.mean = nil
			continue
		}
		reflect.ValueOf(s.mean).Elem().FieldByName(n).Set(reflect.ValueOf(pairs[i+2]))
	}
	return s
}

// forms lists the other ways to write the value; the second one is whether it
// still is that value.
func forms22(v interface{}) (same []interface{}, bad []interface{}) {
	same = append(same, v)
	x := reflect.ValueOf(v)
	switch {
	case x.CanInt():
		same = append(same, x.Int())
		if f := float64(x.Int()); x.Int() > -1<<53 && x.Int() < 1<<53 {
			same = append(same, f)
			bad = append(bad, f+0.5)
		}
		if x.Int() >= 0 {
			same = append(same, uint64(x.Int()))
		}
		bad = append(bad, fmt.Sprint(v), true, nil, []interface{}{v}, map[string]interface{}{"a": v})
		switch x.Kind() {
		case reflect.Int32:
			bad = append(bad, x.Int()+1<<32, 1e40)
		case reflect.Int16:
			bad = append(bad, x.Int()+1<<16)
		}
	case x.CanUint():
		same = append(same, x.Uint())
		if x.Uint() < 1<<53 {
			same = append(same, float64(x.Uint()), int64(x.Uint()))
			bad = append(bad, float64(x.Uint())+0.5)
		}
		bad = append(bad, fmt.Sprint(v), -1, -1.0, nil, false)
		if x.Kind() == reflect.Uint8 {
			bad = append(bad, x.Uint()+256)
		}
	case x.CanFloat():
		if f := x.Float(); f == float64(int64(f)) {
			same = append(same, int(f))
		}
		bad = append(bad, "1.5", true, nil)
	case x.Kind() == reflect.String:
		bad = append(bad, 120, 1.0, true, nil, []interface{}{})
	case x.Kind() == reflect.Bool:
		bad = append(bad, "true", 1, 0.0, nil)
	case x.Kind() == reflect.Slice:
		bad = append(bad, 1, true)
	}
	return same, bad
}

func norm22(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	var x interface{}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if err := d.Decode(&x); err != nil {
		return err.Error()
	}
	b, _ = json.Marshal(x)
	return string(b)
}

func match22(r RowW, f sel22) bool {
	if f.mean == nil {
		return false
	}
	for _, n := range f.set {
		if !reflect.DeepEqual(reflect.ValueOf(r).FieldByName(n).Interface(), reflect.ValueOf(*f.mean).FieldByName(n).Interface()) {
			return false
		}
	}
	return true
}

func runC22(c *Ctx) {
	env := c.NewEnv(nil, nil, nil)
	defer func() { _ = env.Close() }()
	tv, err := mk22(env.DB, 1, "values", rows22, func(r RowW) RowW { return r }, func(r RowW) RowW { return r })
	if err != nil {
		panic(err)
	}
	tp, err := mk22(env.DB, 2, "pointers", rows22, func(r RowW) *RowW { return &r }, func(r *RowW) RowW {
		if r == nil {
			return RowW{}
		}
		return *r
	})
	if err != nil {
		panic(err)
	}
	// with a row of zero values
	tz, err := mk22(env.DB, 4, "zero", append([]RowW{{Y: []byte{}}}, rows22...), func(r RowW) RowW { return r }, func(r RowW) RowW { return r })
	if err != nil {
		panic(err)
	}
	// with many rows
	many := make([]RowW, 0, 257)
	for i := 0; i < 257; i++ {
		many = append(many, RowW{ID: uint64(i) * 3, A: int32(i % 2), B: int16(i), I: int64(i % 5), S: strings.Repeat("s", i%3), Y: []byte{byte(i)}, P: i%4 > 0})
	}
	tl, err := mk22(env.DB, 5, "long", many, func(r RowW) *RowW { return &r }, func(r *RowW) RowW {
		if r == nil {
			return RowW{}
		}
		return *r
	})
	if err != nil {
		panic(err)
	}
	empty := bond.NewTable(bond.TableOptions[*RowW]{DB: env.DB, TableID: 3, TableName: "empty", TablePrimaryKeyFunc: func(b bond.KeyBuilder, x *RowW) []byte { return b.AddUint64Field(x.ID).Bytes() }})
	tabs := []tab22{tv, tp, tz}
	local, err := inspect.NewInspect([]bond.TableInfo{tv.info, tp.info, empty, tz.info, tl.info})
	if err != nil {
		panic(err)
	}
	h := inspect.NewInspectHandler(local)
	// some requests have to carry the headers given to the client
	mux := http.NewServeMux()
	mux.Handle("/some/where/", http.StripPrefix("/some/where", h))
	mux.HandleFunc("/auth/", func(w http.ResponseWriter, r *http.Request) {
		if r.Header.Get("X-A") != "b" || r.Header.Get("C") != "d e" {
			w.WriteHeader(403)
			return
		}
		http.StripPrefix("/auth", h).ServeHTTP(w, r)
	})
	srv := httptest.NewServer(mux)
	defer srv.Close()
	remote := inspect.NewInspectRemote(srv.URL+"/auth/", map[string]string{"X-A": "b", "C": "d e"})
	both := []struct {
		name string
		in   inspect.Inspect
	}{{"local", local}, {"remote", remote}}

	c.Part("listings", func() {
		for _, b := range both {
			b := b
			c.Exec("listings", func() any { return b.name }, func() error {
				names, err := b.in.Tables()
				if err != nil || fmt.Sprint(names) != "[values pointers empty zero long]" {
					return fmt.Errorf("tables: %v %v", names, err)
				}
				for _, n := range []string{"values", "pointers", "empty", "zero", "long"} {
					want := []string{bond.PrimaryIndexName}
					if n != "empty" {
						want = append(want, "by_a", "by_s_desc", "p_only")
					}
					got, err := b.in.Indexes(n)
					sort.Strings(got)
					sort.Strings(want)
					if err != nil || fmt.Sprint(got) != fmt.Sprint(want) {
						return fmt.Errorf("indexes of %s: %v %v", n, got, err)
					}
					f, err := b.in.EntryFields(n)
					if err != nil {
						return err
					}
					wf := map[string]string{}
					for k, v := range asMap(RowW{}) {
						wf[k] = reflect.TypeOf(v).Kind().String()
					}
					if !reflect.DeepEqual(f, wf) {
						return fmt.Errorf("fields of %s: %v", n, f)
					}
				}
				for _, n := range []string{"", "no", "Values", "values ", "value"} {
					if x, err := b.in.Indexes(n); err == nil {
						return fmt.Errorf("indexes of %q: %v", n, x)
					}
					if x, err := b.in.EntryFields(n); err == nil {
						return fmt.Errorf("fields of %q: %v", n, x)
					}
					for _, ix := range []string{"", "by_a"} {
						if x, err := b.in.Query(bg, n, ix, nil, nil, 0, nil); err == nil {
							return fmt.Errorf("query of %q: %v", n, x)
						}
					}
				}
				for _, ix := range []string{"no", "by", "by_a ", "BY_A"} {
					if x, err := b.in.Query(bg, "values", ix, nil, nil, 0, nil); err == nil {
						return fmt.Errorf("query of index %q: %v", ix, x)
					}
				}
				if x, err := b.in.Query(bg, "empty", "", nil, nil, 0, nil); err != nil || len(x) != 0 {
					return fmt.Errorf("query of the empty table: %v %v", x, err)
				}
				ctx, cancel := context.WithCancel(bg)
				cancel()
				if x, err := b.in.Query(ctx, "values", "", nil, nil, 0, nil); err == nil {
					return fmt.Errorf("cancelled query: %v", x)
				}
				return nil
			})
			c.AddStates(1)
			c.AddTransitions(40)
		}
	})

	ask := func(tab tab22, index string, sel, filter *sel22, limit uint64, after *sel22) {
		c.Exec("query", func() any {
			return fmt.Sprintf("%s index %q selector %v filter %v limit %d after %v", tab.info.Name(), index, given(sel), given(filter), limit, given(after))
		}, func() error {
			primary := index == "" || index == bond.PrimaryIndexName
			bad := !primary && sel != nil && sel.mean == nil || after != nil && after.mean == nil
			var want []RowW
			if !bad {
				s, a := &RowW{}, (*RowW)(nil)
				if sel != nil && sel.mean != nil {
					s = sel.mean
				}
				if after != nil {
					a = after.mean
				}
				var f func(RowW) bool
				if filter != nil {
					f = func(r RowW) bool { return match22(r, *filter) }
				}
				var err error
				if want, err = tab.direct(index, s, f, limit, a); err != nil {
					return fmt.Errorf("direct query: %v", err)
				}
			}
			wm := make([]map[string]interface{}, len(want))
			for i := range want {
				wm[i] = asMap(want[i])
			}
			for _, b := range both {
				before := fmt.Sprint(given(sel), given(filter), given(after))
				got, err := b.in.Query(bg, tab.info.Name(), index, given(sel), given(filter), limit, given(after))
				if fmt.Sprint(given(sel), given(filter), given(after)) != before {
					return fmt.Errorf("%s: the query changed its arguments", b.name)
				}
				if bad {
					if err == nil {
						return fmt.Errorf("%s: a bad request was answered with %v", b.name, got)
					}
					continue
				}
				if err != nil {
					if filter != nil && filter.mean == nil && len(want) == 0 {
						continue
					}
					return fmt.Errorf("%s: %v", b.name, err)
				}
				if norm22(got) != norm22(wm) {
					return fmt.Errorf("%s: answered %s, the table %s", b.name, norm22(got), norm22(wm))
				}
				if b.name == "local" && !reflect.DeepEqual(got, wm) && len(wm) > 0 {
					return fmt.Errorf("local: answered %#v, the table %#v", got, wm)
				}
			}
			return nil
		})
		c.AddStates(1)
		c.AddTransitions(3)
		c.AddTraces(1)
	}

	indexes := []string{"", bond.PrimaryIndexName, "by_a", "by_s_desc", "p_only"}
	limits := []uint64{0, 1, 2, 100, 1<<64 - 1}

	// every field value in every form, as filter, in the selector and in after
	c.Part("values of every type in every place", func() {
		for _, tab := range tabs {
			for _, ix := range []string{"", "by_a", "by_s_desc"} {
				for _, r := range rows22 {
					for n, v := range asMap(r) {
						if c.Stop() {
							return
						}
						same, bad := forms22(v)
						var all []sel22
						for _, x := range same {
							all = append(all, fields22(n, x, v))
						}
						for _, x := range bad {
							all = append(all, fields22(n, x, nil))
						}
						for i := range all {
							s := all[i]
							ask(tab, ix, nil, &s, 0, nil)
							if ix != "" {
								ask(tab, ix, &s, nil, 0, nil)
							}
							ask(tab, ix, nil, nil, 2, &s)
						}
					}
				}
			}
		}
	})

	// combinations
	c.Part("combinations", func() {
		sels := []*sel22{nil}
		add := func(s sel22) { sels = append(sels, &s) }
		add(fields22())
		add(fields22("A", int32(5), int32(5)))
		add(fields22("A", 5.0, int32(5), "B", 2.0, int16(2)))
		add(fields22("A", 5.0, int32(5), "B", 2, int16(2), "ID", uint64(1<<53+1), uint64(1<<53+1)))
		add(fields22("S", "x", "x"))
		add(fields22("S", "x", "x", "I", int64(1<<53+1), int64(1<<53+1)))
		add(fields22("a", 5, nil))
		add(fields22("A", "5", nil))
		add(fields22("nope", nil, nil))
		filters := []*sel22{nil}
		addf := func(s sel22) { filters = append(filters, &s) }
		addf(fields22())
		addf(fields22("P", true, true))
		addf(fields22("A", 5.0, int32(5), "P", true, true))
		addf(fields22("S", "x", "x", "C", 3, uint8(3)))
		addf(fields22("nope", 5, nil))
		addf(fields22("P", true, true, "A", 5.5, nil))
		afters := []*sel22{nil}
		for _, r := range append(rows22[:len(rows22):len(rows22)], RowW{ID: 3, A: 5, B: 2, S: "x", P: true, Y: []byte{}}) {
			s := fields22()
			for n, v := range asMap(r) {
				s.given[n] = v
				s.set = append(s.set, n)
			}
			r := r
			s.mean = &r
			afters = append(afters, &s)
		}
		part := fields22("ID", 2.0, uint64(2), "A", 5, int32(5))
		wrong := fields22("ID", -2, nil)
		none := fields22()
		afters = append(afters, &part, &wrong, &none)
		type job struct {
			t  tab22
			ix string
			s  *sel22
		}
		var jobs []job
		for _, tab := range tabs {
			for _, ix := range indexes {
				for _, s := range sels {
					if (ix == "" || ix == bond.PrimaryIndexName) && s != nil {
						continue // ignored there, see DESIGN.md
					}
					jobs = append(jobs, job{tab, ix, s})
				}
			}
		}
		c.Parallel(len(jobs), func(_, i int) {
			for _, f := range filters {
				for _, l := range limits {
					for _, a := range afters {
						if c.Stop() {
							return
						}
						ask(jobs[i].t, jobs[i].ix, jobs[i].s, f, l, a)
					}
				}
			}
		})
	})

	c.Part("many rows", func() {
		afters := []*sel22{nil}
		for _, i := range []int{0, 99, 100, 156, 256} {
			a := fields22()
			r := many[i]
			for n, v := range asMap(r) {
				a.given[n] = v
			}
			a.mean = &r
			afters = append(afters, &a)
		}
		filters := []*sel22{nil}
		for _, f := range []sel22{fields22("P", true, true), fields22("I", 3, int64(3)), fields22("B", 256, int16(256))} {
			f := f
			filters = append(filters, &f)
		}
		limits := []uint64{0, 1, 30, 99, 100, 101, 200, 256, 257, 258, 1 << 32, 1<<64 - 1}
		if c.Thorough() {
			limits = []uint64{0, 1, 29, 30, 31, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 258, 1000, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}
		}
		type job struct {
			ix   string
			s, f *sel22
		}
		var jobs []job
		for _, ix := range indexes {
			sels := []*sel22{nil}
			for _, x := range []sel22{fields22("A", 1, int32(1)), fields22("S", "ss", "ss")} {
				x := x
				if ix != "" && ix != bond.PrimaryIndexName {
					sels = append(sels, &x)
				}
			}
			for _, s := range sels {
				for _, f := range filters {
					jobs = append(jobs, job{ix, s, f})
				}
			}
		}
		c.Parallel(len(jobs), func(_, i int) {
			for _, a := range afters {
				for _, l := range limits {
					if c.Stop() {
						return
					}
					ask(tl, jobs[i].ix, jobs[i].s, jobs[i].f, l, a)
				}
			}
		})
	})

	c.Part("requests given up", func() {
		for _, path := range []string{inspect.QueryPath} {
			for _, tab := range []string{"values", "pointers", "zero", "long"} {
				for _, ix := range indexes {
					for _, limit := range []int{0, 1, 100} {
						for _, filter := range []string{"null", `{"P":true}`} {
							for _, after := range []string{"null", `{"ID":2}`} {
								body := fmt.Sprintf(`{"table":%q,"index":%q,"limit":%d,"filter":%s,"after":%s}`, tab, ix, limit, filter, after)
								c.Exec("request given up", func() any { return []string{path, body} }, func() error {
									for _, given := range []bool{false, true} {
										ctx, cancel := context.WithCancel(bg)
										if given {
											cancel()
										}
										w := httptest.NewRecorder()
										h(w, httptest.NewRequest("POST", path, strings.NewReader(body)).WithContext(ctx))
										cancel()
										if given && w.Code < 400 {
											return fmt.Errorf("the client had given up, the answer is %d %s", w.Code, w.Body.String())
										}
										if !given && w.Code >= 400 {
											return fmt.Errorf("the answer is %d %s", w.Code, w.Body.String())
										}
									}
									return nil
								})
								c.AddStates(1)
								c.AddTransitions(2)
							}
						}
					}
				}
			}
		}
	})

	c.Part("command line", func() {
		outFile := filepath.Join(c.TempDir(), "stdout")
		run := func(args ...string) (string, error) {
			f, err := os.Create(outFile)
			if err != nil {
				panic(err)
			}
			old := os.Stdout
			os.Stdout = f
			app := &cli.App{Name: "x", Commands: []*cli.Command{inspect.NewInspectCLI(func(p string) (inspect.Inspect, error) {
				if p != "the/path" {
					return nil, fmt.Errorf("path %q", p)
				}
				return local, nil
			})}, ExitErrHandler: func(*cli.Context, error) {}, Writer: os.Stderr, ErrWriter: os.Stderr}
			app.Writer, app.ErrWriter = discard{}, discard{}
			err = app.Run(append([]string{"x", "inspect"}, args...))
			os.Stdout = old
			_ = f.Close()
			b, rerr := os.ReadFile(outFile)
			if rerr != nil {
				panic(rerr)
			}
			return string(b), err
		}
		// every run is a new client
		srv := httptest.NewUnstartedServer(mux)
		srv.Config.SetKeepAlivesEnabled(false)
		srv.Start()
		defer srv.Close()
		urls := [][]string{{"--url", "the/path"}, {"--url", srv.URL + "/some/where/"}, {"--url", srv.URL + "/some/where"}, {"--url", srv.URL + "/auth", "--headers", "X-A=b", "--headers", "C=d e"}}
		expect := func(want interface{}, bad bool, args ...string) {
			for _, u := range urls {
				a := append(append([]string{}, u...), args...)
				c.Exec("command line", func() any { return a[2:] }, func() error {
					out, err := run(a...)
					if bad {
						if err == nil {
							return fmt.Errorf("a bad command printed %q", out)
						}
						if strings.Contains(out, `"ID"`) {
							return fmt.Errorf("rows with an error: %s", out)
						}
						return nil
					}
					if err != nil {
						return err
					}
					var got interface{}
					d := json.NewDecoder(strings.NewReader(out))
					d.UseNumber()
					if err := d.Decode(&got); err != nil {
						return fmt.Errorf("printed %q: %v", out, err)
					}
					if norm22(got) != norm22(want) {
						return fmt.Errorf("printed %s, the table has %s", norm22(got), norm22(want))
					}
					return nil
				})
				c.AddStates(1)
				c.AddTransitions(1)
			}
		}
		expect([]string{"values", "pointers", "empty", "zero", "long"}, false, "tables")
		for _, tab := range append(tabs[:len(tabs):len(tabs)], tl) {
			n := tab.info.Name()
			wf := map[string]string{}
			for k, v := range asMap(RowW{}) {
				wf[k] = reflect.TypeOf(v).Kind().String()
			}
			ix, _ := local.Indexes(n)
			expect(ix, false, "indexes", "--table", n)
			expect(wf, false, "entry-fields", "--table", n)
		}
		expect(nil, true, "indexes", "--table", "no")
		expect(nil, true, "indexes")
		expect(nil, true, "entry-fields", "--table", "no")
		expect(nil, true, "query", "--table", "no")
		expect(nil, true, "query")
		expect(nil, true, "query", "--table", "values", "--index", "no")
		expect(nil, true, "query", "--table", "values", "--limit", "-1")
		expect(nil, true, "query", "--table", "values", "--filter", "{")
		expect(nil, true, "query", "--table", "values", "--after", "5")
		expect(nil, true, "query", "--table", "values", "--after", `{"ID":-1}`)
		expect(nil, true, "query", "--table", "values", "--index", "by_a", "--index-selector", `{"A":"x"}`)
		expect(nil, true, "query", "--table", "values", "--index", "by_a", "--index-selector", `A`)
		expect(nil, true, "query", "--table", "values", "--deadline", "-1s")
		js := func(v interface{}) string { b, _ := json.Marshal(v); return string(b) }
		for _, tab := range append(tabs[:len(tabs):len(tabs)], tl) {
			for _, ix := range append(indexes[:len(indexes):len(indexes)], "-") {
				sels := []*sel22{nil}
				if ix == "by_a" || ix == "by_s_desc" {
					for _, x := range []sel22{fields22("A", 5, int32(5)), fields22("S", "x", "x", "I", int64(1<<53+1), int64(1<<53+1)), fields22()} {
						x := x
						sels = append(sels, &x)
					}
				}
				filters := []*sel22{nil}
				for _, x := range []sel22{fields22("P", true, true), fields22("A", 5, int32(5), "I", int64(1<<53+1), int64(1<<53+1)), fields22()} {
					x := x
					filters = append(filters, &x)
				}
				afters := []*sel22{nil}
				for _, r := range []RowW{rows22[1], rows22[3], many[40]} {
					r := r
					x := fields22()
					for n, v := range asMap(r) {
						x.given[n] = v
					}
					x.mean = &r
					afters = append(afters, &x)
				}
				for _, s := range sels {
					for _, f := range filters {
						for _, a := range afters {
							for _, l := range []string{"-", "0", "1", "2", "31", "101", "1000"} {
								if c.Stop() {
									return
								}
								args := []string{"query", "--table", tab.info.Name()}
								in, lim := "", uint64(30)
								if ix != "-" {
									in = ix
									args = append(args, "--index", ix)
								}
								if l != "-" {
									fmt.Sscan(l, &lim)
									args = append(args, "--limit", l)
								}
								ms, ma := &RowW{}, (*RowW)(nil)
								var mf func(RowW) bool
								if s != nil {
									ms = s.mean
									args = append(args, "--index-selector", js(s.given))
								}
								if f != nil {
									f := f
									mf = func(r RowW) bool { return match22(r, *f) }
									args = append(args, "--filter", js(f.given))
								}
								if a != nil {
									ma = a.mean
									args = append(args, "--after", js(a.given))
								}
								want, err := tab.direct(in, ms, mf, lim, ma)
								if err != nil {
									panic(err)
								}
								wm := make([]map[string]interface{}, len(want))
								for i := range want {
									wm[i] = asMap(want[i])
								}
								expect(wm, false, args...)
							}
						}
					}
				}
			}
		}
	})

	c.Part("raw requests", func() {
		bodies := []string{"", "{", "null", "1", "[]", `"x"`, "{}", `{"table":1}`, `{"table":null}`, `{"table":"values"}`, `{"table":"values","index":5}`,
			`{"table":"values","index":"no"}`, `{"table":"values","limit":-1}`, `{"table":"values","limit":1.5}`, `{"table":"values","limit":"1"}`, `{"table":"values","limit":18446744073709551616}`,
			`{"table":"values","filter":[]}`, `{"table":"values","filter":{"A":{}}}`, `{"table":"values","filter":null,"after":null,"indexSelector":null}`,
			`{"table":"values","after":5}`, `{"table":"values","after":{"ID":{}}}`, `{"table":"values","after":{"ID":1e400}}`, `{"table":"values","after":{"":1}}`,
			`{"table":"values","index":"by_a","indexSelector":{"A":[1]}}`, `{"table":"values","index":"by_a","indexSelector":"A"}`, `{"table":"values","index":"by_a","indexSelector":{"A":null}}`,
			`{"table":"values","after":{"Y":"not base 64!"}}`, `{"table":"values","filter":{"Y":"AP8="}}`, `{"table":"values","filter":{"I":9007199254740993}}`, `{"table":"values","filter":{"ID":1e0}}`,
			`{"table":"values"}garbage`, strings.Repeat("[", 20000)}
		rowsOf := func(s string) int { return strings.Count(s, `"ID"`) }
		wantRows := map[string]int{`{"table":"values"}`: 5, `{"table":"values","filter":null,"after":null,"indexSelector":null}`: 5,
			`{"table":"values","filter":{"Y":"AP8="}}`: 1, `{"table":"values","filter":{"I":9007199254740993}}`: 1, `{"table":"values","filter":{"ID":1e0}}`: 1}
		for _, path := range []string{inspect.TablesPath, inspect.IndexesPath, inspect.EntryFieldsPath, inspect.QueryPath, "/deep/er" + inspect.QueryPath, "/query/", "/", "/x", "/tables/no"} {
			for _, method := range []string{"POST", "GET", "PUT"} {
				for _, accept := range []string{"", "application/json", "text/plain"} {
					for _, body := range bodies {
						path, method, accept, body := path, method, accept, body
						c.Exec("raw request", func() any { return []string{method, path, accept, body} }, func() error {
							rq := httptest.NewRequest(method, path, strings.NewReader(body))
							if accept != "" {
								rq.Header.Set("Accept", accept)
							}
							w := httptest.NewRecorder()
							h(w, rq)
							ok := w.Code < 400
							out := w.Body.String()
							if ok && accept == "text/plain" {
								return fmt.Errorf("answered although only text was acceptable: %s", out)
							}
							if !ok {
								if rowsOf(out) > 0 {
									return fmt.Errorf("rows with an error: %s", out)
								}
							}
							known := accept != "text/plain" && (strings.HasSuffix(path, inspect.TablesPath) || strings.HasSuffix(path, inspect.IndexesPath) || strings.HasSuffix(path, inspect.EntryFieldsPath) || strings.HasSuffix(path, inspect.QueryPath))
							if !known {
								if ok {
									return fmt.Errorf("answered %d %s", w.Code, out)
								}
								return nil
							}
							if strings.HasSuffix(path, inspect.QueryPath) && method == "POST" {
								n, good := wantRows[body]
								if good != ok && !(strings.Contains(body, `"filter":{`) && !good && rowsOf(out) == 0) {
									return fmt.Errorf("answered %d %s", w.Code, out)
								}
								if ok && rowsOf(out) != n {
									return fmt.Errorf("%d rows expected: %s", n, out)
								}
							}
							if (strings.HasSuffix(path, inspect.IndexesPath) || strings.HasSuffix(path, inspect.EntryFieldsPath)) && method == "POST" {
								var x struct{ Table string }
								good := json.Unmarshal([]byte(body), &x) == nil && x.Table == "values"
								if good != ok {
									return fmt.Errorf("answered %d %s", w.Code, out)
								}
							}
							return nil
						})
						c.AddStates(1)
						c.AddTransitions(1)
					}
				}
			}
		}
	})
	c.Sample([]string{"values", "by_a", "A=5.0 B=2.0", "filter P=true", "limit 2", "after row 2"})
}

type discard struct{}

func (discard) Write(p []byte) (int, error) { return len(p), nil }

func given(s *sel22) map[string]interface{} {
	if s == nil {
		return nil
	}
	return s.given
}
