// Stub of an OpenTelemetry module the sandbox does not have: same names, no effect.
package attribute

type Key string
type KeyValue struct {
	Key   Key
	Value Value
}
type Value struct{ v interface{} }

func (v Value) AsInterface() interface{} { return v.v }
func (v Value) AsString() string         { s, _ := v.v.(string); return s }

type Set struct{ kvs []KeyValue }

func (s Set) Get(i int) (KeyValue, bool) {
	if i < 0 || i >= len(s.kvs) {
		return KeyValue{}, false
	}
	return s.kvs[i], true
}
func (s *Set) Value(k Key) (Value, bool) {
	for _, kv := range s.kvs {
		if kv.Key == k {
			return kv.Value, true
		}
	}
	return Value{}, false
}
func (s *Set) Len() int { return len(s.kvs) }

func NewSet(kvs ...KeyValue) Set                { return Set{kvs: kvs} }
func String(k, v string) KeyValue               { return KeyValue{Key(k), Value{v}} }
func StringSlice(k string, v []string) KeyValue { return KeyValue{Key(k), Value{v}} }
func Int64(k string, v int64) KeyValue          { return KeyValue{Key(k), Value{v}} }
func Int(k string, v int) KeyValue              { return KeyValue{Key(k), Value{int64(v)}} }
func Float64(k string, v float64) KeyValue      { return KeyValue{Key(k), Value{v}} }
func Bool(k string, v bool) KeyValue            { return KeyValue{Key(k), Value{v}} }
func (k Key) String(v string) KeyValue          { return KeyValue{k, Value{v}} }
func (k Key) Int64(v int64) KeyValue            { return KeyValue{k, Value{v}} }
func (k Key) Bool(v bool) KeyValue              { return KeyValue{k, Value{v}} }
