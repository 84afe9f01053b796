package main

import (
	"fmt"
	"image"
	"reflect"

	"github.com/signintech/gopdf"
)

// owner watches the values the VM hands to the library: after the call each must be what it was, and then
// (scramble mode) it is overwritten, as a caller who reuses it may do, or (reuse mode) it is passed again.
type owner struct {
	Scramble bool
	Reuse    bool
	live     []ownedVal
	cache    []ownedVal
	Fail     func(kind, what string)
	Passed   int
	Reused   int
}

type ownedVal struct{ val, snap reflect.Value }

func deepCopy(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(deepCopy(v.Elem()))
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		if v.Type().Elem().Kind() == reflect.Uint8 {
			reflect.Copy(n, v)
			return n
		}
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(deepCopy(v.Index(i)))
		}
		return n
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		n.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if n.Field(i).CanSet() {
				n.Field(i).Set(deepCopy(v.Field(i)))
			}
		}
		return n
	case reflect.Array:
		n := reflect.New(v.Type()).Elem()
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(deepCopy(v.Index(i)))
		}
		return n
	}
	return v
}

// scramble overwrites everything reachable.
func scramble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			scramble(v.Elem())
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i))
		}
	case reflect.Struct:
		if _, ok := v.Interface().(gopdf.RowCell); ok && v.CanSet() { // has no exported fields
			v.Set(reflect.ValueOf(gopdf.NewRowCell("scrambled", gopdf.CellStyle{})))
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				scramble(v.Field(i))
			}
		}
	case reflect.Float64:
		if v.CanSet() {
			v.SetFloat(7777.25)
		}
	case reflect.Uint8, reflect.Uint16:
		if v.CanSet() {
			v.SetUint(v.Uint() ^ 0x5A)
		}
	case reflect.Int, reflect.Int32:
		if v.CanSet() {
			v.SetInt(5)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scrambled")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	}
}

func (o *owner) watch(v reflect.Value) reflect.Value {
	o.Passed++
	if o.Reuse {
		for _, c := range o.cache {
			if c.val.Type() == v.Type() && reflect.DeepEqual(c.snap.Interface(), v.Interface()) {
				o.Reused++
				o.live = append(o.live, c)
				return c.val
			}
		}
	}
	w := ownedVal{v, deepCopy(v)}
	o.live = append(o.live, w)
	if o.Reuse {
		o.cache = append(o.cache, w)
	}
	return v
}

func own[T any](v *VM, x *T) *T {
	if v.Own == nil || x == nil {
		return x
	}
	return v.Own.watch(reflect.ValueOf(x)).Interface().(*T)
}

func ownSlice[T any](v *VM, x []T) []T {
	if v.Own == nil || x == nil {
		return x
	}
	return v.Own.watch(reflect.ValueOf(x)).Interface().([]T)
}

func (o *owner) mark() int {
	if o == nil {
		return 0
	}
	return len(o.live)
}

// after runs when a call has returned.
func (o *owner) after(kind string, from int) {
	if o == nil {
		return
	}
	live := o.live[from:] // the values of this call, not those of the call whose callback it is made from
	for _, w := range live {
		if !reflect.DeepEqual(w.val.Interface(), w.snap.Interface()) {
			o.Fail("modified:"+kind+":"+w.val.Type().String(), fmt.Sprintf("call %s changed the caller's %s: was %s, is %s", kind, w.val.Type(), cut(fmt.Sprintf("%+v", show(w.snap)), 300), cut(fmt.Sprintf("%+v", show(w.val)), 300)))
			if o.Reuse { // keep going from a clean value
				w.val = deepCopy(w.snap)
			}
		}
	}
	if o.Scramble {
		for _, w := range live {
			scramble(w.val)
		}
	}
	o.live = o.live[:from]
}

func show(v reflect.Value) interface{} {
	if v.Kind() == reflect.Ptr && !v.IsNil() {
		return v.Elem().Interface()
	}
	return v.Interface()
}

// img hands an in-memory image to the library.
func (v *VM) img(a *ImgAsset) image.Image {
	if v.Own == nil {
		return a.Img
	}
	r := reflect.ValueOf(a.Img)
	if r.Kind() != reflect.Ptr {
		return a.Img
	}
	return v.Own.watch(deepCopy(r)).Interface().(image.Image)
}
