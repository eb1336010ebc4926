package main

import (
	"reflect"
	"strings"

	mav "github.com/botlink/go-mavlink2"
)

// callGetters calls every Get* method without arguments of a message.
func callGetters(m mav.Message) {
	v := reflect.ValueOf(m)
	t := v.Type()
	for i := 0; i < t.NumMethod(); i++ {
		me := t.Method(i)
		if strings.HasPrefix(me.Name, "Get") && me.Type.NumIn() == 1 {
			v.Method(i).Call(nil)
		}
	}
}

// derefAny is what a pointer points to, so that printing shows the fields.
func derefAny(m interface{}) interface{} {
	v := reflect.ValueOf(m)
	if v.Kind() == reflect.Ptr && !v.IsNil() {
		return v.Elem().Interface()
	}
	return m
}
