package main

// Model of http.Get on top of http.DefaultTransport, which the harness provides,
// and of copying into files.

import "go/types"

func registerHTTP() {
	reg := func(n string, f extFn) { externals[n] = f }
	request := func(fr *frame, method string, u value) value {
		in := fr.in
		pk := in.e.pkgs["net/http"]
		up := in.e.pkgs["net/url"]
		if pk == nil || up == nil || up.Func("Parse") == nil {
			in.p.unsupported("http.Get")
		}
		t := in.call(fr, up.Func("Parse"), []value{u}, 0).(tuple)
		if t[1].(iface).t != nil {
			return tuple{(*value)(nil), t[1]}
		}
		req := zero(pk.Type("Request").Type()).(structure)
		st := pk.Type("Request").Type().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			switch st.Field(i).Name() {
			case "URL":
				req[i] = t[0]
			case "Method":
				req[i] = method
			}
		}
		rv := value(req)
		return tuple{&rv, nilErr}
	}
	do := func(fr *frame, req value) value {
		in := fr.in
		rt, ok := (*in.global(in.e.pkgs["net/http"].Var("DefaultTransport"), fr.g)).(iface)
		if !ok || rt.t == nil {
			in.p.unsupported("an HTTP request without a transport of the harness")
		}
		r := fr.callMethod(rt, "RoundTrip", req).(tuple)
		if e := r[1].(iface); e.t != nil {
			return tuple{(*value)(nil), in.errVal("Get: " + fr.callMethod(e, "Error").(string))}
		}
		return r
	}
	get := func(fr *frame, u value) value {
		t := request(fr, "GET", u).(tuple)
		if t[1].(iface).t != nil {
			return t
		}
		return do(fr, t[0])
	}
	reg("net/http.NewRequest", func(fr *frame, a []value) value { return request(fr, str(a[0]), a[1]) })
	reg("net/http.NewRequestWithContext", func(fr *frame, a []value) value { return request(fr, str(a[1]), a[2]) })
	reg("(*net/http.Client).Do", func(fr *frame, a []value) value { return do(fr, a[1]) })
	reg("net/http.Get", func(fr *frame, a []value) value { return get(fr, a[0]) })
	reg("(*net/http.Client).Get", func(fr *frame, a []value) value { return get(fr, a[1]) })
	reg("(*os.File).ReadFrom", func(fr *frame, a []value) value {
		n := int64(0)
		for {
			b := bytesVal(make([]byte, 512))
			t := fr.callMethod(a[1].(iface), "Read", b).(tuple)
			k := fr.intOf(t[0])
			if k > 0 {
				w := externals["(*os.File).Write"](fr, []value{a[0], b[:k:k]}).(tuple)
				n += k
				if w[1].(iface).t != nil {
					return tuple{n, w[1]}
				}
			}
			if e := t[1].(iface); e.t != nil {
				if e == fr.in.stdErr("io", "EOF").(iface) {
					e = nilErr
				}
				return tuple{n, e}
			}
		}
	})
	reg("(*strings.Builder).copyCheck", func(fr *frame, a []value) value { return nil })
	reg("(*strings.Builder).String", func(fr *frame, a []value) value {
		b, _ := (*fr.ptr(a[0])).(structure)[1].([]value)
		return fr.bytesText(b)
	})
	reg("os.Rename", func(fr *frame, a []value) value {
		from, to := fr.in.abs(fr.in.p.plain(str(a[0]))), fr.in.abs(fr.in.p.plain(str(a[1])))
		m := fr.in.fs()
		n := m[from]
		if n == nil {
			return fr.in.errVal("rename " + from + " " + to + ": no such file or directory")
		}
		if n.dir {
			fr.in.p.unsupported("os.Rename of a folder")
		}
		delete(m, from)
		m[to] = n
		return nilErr
	})
}
