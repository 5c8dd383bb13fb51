package merge_test

import (
	"context"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

// files writes files, given as name and content, to a new directory.
func files(t *testing.T, nc ...string) string {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < len(nc); i += 2 {
		f := filepath.Join(dir, nc[i])
		if err := os.MkdirAll(filepath.Dir(f), 0755); err != nil {
			t.Fatal(err)
		}
		if err := ioutil.WriteFile(f, []byte(nc[i+1]), 0644); err != nil {
			t.Fatal(err)
		}
	}
	return dir
}

// open calls f with a session for the configuration in the directory, and closes it.
func open(dir string, options map[string]interface{}, f func(s api.Session)) error {
	o := map[string]interface{}{api.HieraRoot: dir}
	for k, v := range options {
		o[k] = v
	}
	var tp sdk.LookupKey = provider.ConfigLookupKey
	if v, ok := o["top"]; ok {
		tp = v.(sdk.LookupKey)
		delete(o, "top")
	}
	return hiera.TryWithParent(context.Background(), tp, vf.Map(o), func(s api.Session) error {
		f(s)
		return nil
	})
}

// look looks up a key on a session.
func look(s api.Session, key string, scope map[string]interface{}, options map[string]interface{}) (v dgo.Value, err error) {
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(error)
			if !ok {
				e = fmt.Errorf("%v", r)
			}
			err = e
		}
	}()
	var sc, op interface{}
	if scope != nil {
		sc = vf.Map(scope)
	}
	if options != nil {
		op = vf.Map(options)
	}
	v = hiera.Lookup(s.Invocation(sc, nil), key, nil, op)
	return
}

// once looks up a key on a session of its own.
func once(t *testing.T, dir, key string, scope map[string]interface{}, options map[string]interface{}) (v dgo.Value) {
	t.Helper()
	var err error
	if e := open(dir, nil, func(s api.Session) { v, err = look(s, key, scope, options) }); e != nil {
		t.Fatal(e)
	}
	if err != nil {
		t.Fatal(err)
	}
	return v
}

// want compares a value with one given in Go.
func want(t *testing.T, v dgo.Value, w interface{}) {
	t.Helper()
	if w == nil {
		if v != nil {
			t.Fatalf("got %v, want nothing", v)
		}
		return
	}
	if v == nil || !v.Equals(vf.Value(w)) {
		t.Fatalf("got %v, want %v", v, w)
	}
}

type m = map[string]interface{}
type l = []interface{}
