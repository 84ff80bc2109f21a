package hmongo

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/takenet/deckard/internal/zzverif/nd"
	"go.mongodb.org/mongo-driver/v2/bson"
	"go.mongodb.org/mongo-driver/v2/mongo"
	"google.golang.org/protobuf/types/known/anypb"
)

// Doc is a document: keys in order. Values are string, bool, int64 (both integer types), float64,
// Date, bson.ObjectID, []byte, nil, *Doc and []interface{}.
type Doc struct {
	Keys []string
	Vals []interface{}
}

// Date is a time in milliseconds.
type Date struct{ Ms int64 }

func (d *Doc) index(k string) int {
	for i, x := range d.Keys {
		if x == k {
			return i
		}
	}
	return -1
}

func (d *Doc) Get(k string) (interface{}, bool) {
	if i := d.index(k); i >= 0 {
		return d.Vals[i], true
	}
	return nil, false
}

func (d *Doc) Put(k string, v interface{}) {
	if i := d.index(k); i >= 0 {
		d.Vals[i] = v
		return
	}
	d.Keys, d.Vals = append(d.Keys, k), append(d.Vals, v)
}

func (d *Doc) del(k string) {
	if i := d.index(k); i >= 0 {
		d.Keys = append(append([]string{}, d.Keys[:i]...), d.Keys[i+1:]...)
		d.Vals = append(append([]interface{}{}, d.Vals[:i]...), d.Vals[i+1:]...)
	}
}

// DropNulls removes the fields without a value.
func (d *Doc) DropNulls() {
	for _, k := range append([]string{}, d.Keys...) {
		v, _ := d.Get(k)
		if v == nil {
			d.del(k)
		}
		if x, ok := v.(*Doc); ok {
			x.DropNulls()
		}
	}
}

func (d *Doc) clone() *Doc {
	r := &Doc{Keys: append([]string{}, d.Keys...)}
	for _, v := range d.Vals {
		r.Vals = append(r.Vals, copied(v))
	}
	return r
}

func copied(v interface{}) interface{} {
	switch v := v.(type) {
	case *Doc:
		return v.clone()
	case []interface{}:
		r := make([]interface{}, len(v))
		for i := range v {
			r[i] = copied(v[i])
		}
		return r
	}
	return v
}

// path reads a dotted path.
func (d *Doc) path(p string) (interface{}, bool) {
	parts := strings.Split(p, ".")
	for i, k := range parts {
		v, ok := d.Get(k)
		if !ok || i == len(parts)-1 {
			return v, ok
		}
		if d, ok = v.(*Doc); !ok {
			return nil, false
		}
	}
	return nil, false
}

// set writes a dotted path and creates the documents on the way.
func (d *Doc) set(p string, v interface{}) bool {
	parts := strings.Split(p, ".")
	for i, k := range parts {
		if i == len(parts)-1 {
			d.Put(k, v)
			return true
		}
		x, ok := d.Get(k)
		if !ok {
			n := &Doc{}
			d.Put(k, n)
			d = n
			continue
		}
		if d, ok = x.(*Doc); !ok {
			return false
		}
	}
	return false
}

func (d *Doc) unset(p string) {
	parts := strings.Split(p, ".")
	for i, k := range parts {
		if i == len(parts)-1 {
			d.del(k)
			return
		}
		x, _ := d.Get(k)
		n, ok := x.(*Doc)
		if !ok {
			return
		}
		d = n
	}
}

func date(t time.Time) Date { return Date{t.UnixMilli()} }

// encode is the value a Go value is sent as.
func encode(v interface{}) interface{} {
	switch v := v.(type) {
	case nil:
		return nil
	case string:
		return v
	case bool:
		return v
	case int:
		return int64(v)
	case int32:
		return int64(v)
	case int64:
		return v
	case float64:
		return v
	case time.Time:
		return date(v)
	case *time.Time:
		if v == nil {
			return nil
		}
		return date(*v)
	case bson.DateTime:
		return Date{int64(v)}
	case *int64:
		if v == nil {
			return nil
		}
		return *v
	case *string:
		if v == nil {
			return nil
		}
		return *v
	case bson.ObjectID:
		return v
	case []byte:
		return append([]byte{}, v...)
	case *bson.M:
		if v == nil {
			return nil
		}
		return encode(*v)
	case *bson.D:
		if v == nil {
			return nil
		}
		return encode(*v)
	case bson.M:
		if v == nil {
			return nil
		}
		ks := make([]string, 0, len(v))
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		d := &Doc{}
		for _, k := range ks {
			d.Put(k, encode(v[k]))
		}
		return d
	case map[string]interface{}:
		return encode(bson.M(v))
	case bson.D:
		d := &Doc{}
		for _, e := range v {
			d.Put(e.Key, encode(e.Value))
		}
		return d
	case map[string]int:
		d := &Doc{}
		for k, x := range v {
			d.Put(k, int64(x))
		}
		return d
	case map[string]string:
		if v == nil {
			return nil
		}
		d := &Doc{}
		for k, x := range v {
			d.Put(k, x)
		}
		return d
	case map[string]*anypb.Any:
		if v == nil {
			return nil
		}
		d := &Doc{}
		for k, x := range v {
			if x == nil {
				d.Put(k, nil)
			} else {
				d.Put(k, encode(x))
			}
		}
		return d
	case []string:
		if v == nil {
			return nil
		}
		r := make([]interface{}, len(v))
		for i := range v {
			r[i] = v[i]
		}
		return r
	case *[]string:
		if v == nil {
			return nil
		}
		return encode(*v)
	case []interface{}:
		r := make([]interface{}, len(v))
		for i := range v {
			r[i] = encode(v[i])
		}
		return r
	case bson.A:
		return encode([]interface{}(v))
	}
	if nd.Fields(v) >= 0 {
		return EncodeStruct(v)
	}
	nd.Unsupported("a value the MongoDB model does not know")
	return nil
}

func document(v interface{}, r *mongo.VerifReply) *Doc {
	d, ok := encode(v).(*Doc)
	if !ok {
		r.Err = mongo.ErrNilDocument
		return nil
	}
	return d
}

// ordered is a document whose order counts.
func ordered(v interface{}, r *mongo.VerifReply) *Doc {
	n := 0
	switch m := v.(type) {
	case bson.M:
		n = len(m)
	case *bson.M:
		n = len(*m)
	case map[string]int:
		n = len(m)
	}
	if n > 1 {
		r.Err = errors.New("multi-key map passed in for ordered parameter sort")
		return nil
	}
	return document(v, r)
}

// class is the place of a type in the order of all values.
func class(v interface{}) int {
	switch v.(type) {
	case nil:
		return 0
	case int64, float64:
		return 1
	case string:
		return 2
	case *Doc:
		return 3
	case []interface{}:
		return 4
	case []byte:
		return 5
	case bson.ObjectID:
		return 6
	case bool:
		return 7
	case Date:
		return 8
	}
	nd.Unsupported("a stored value the MongoDB model does not know")
	return 9
}

func less(a, b interface{}) bool {
	if class(a) != class(b) {
		return class(a) < class(b)
	}
	switch x := a.(type) {
	case nil:
		return false
	case int64:
		if y, ok := b.(int64); ok {
			return x < y
		}
		return float64(x) < b.(float64)
	case float64:
		if y, ok := b.(int64); ok {
			return x < float64(y)
		}
		return nd.Or(x < b.(float64), nd.And(x != x, b.(float64) == b.(float64)))
	case string:
		return x < b.(string)
	case bson.ObjectID:
		y := b.(bson.ObjectID)
		for i := range x {
			if x[i] != y[i] {
				return x[i] < y[i]
			}
		}
		return false
	case bool:
		return !x && b.(bool)
	case Date:
		return x.Ms < b.(Date).Ms
	}
	nd.Unsupported("an order of documents")
	return false
}

func equal(a, b interface{}) bool {
	if class(a) != class(b) {
		return false
	}
	switch x := a.(type) {
	case nil:
		return true
	case int64:
		if y, ok := b.(int64); ok {
			return x == y
		}
		return float64(x) == b.(float64)
	case float64:
		if y, ok := b.(int64); ok {
			return x == float64(y)
		}
		y := b.(float64)
		return nd.Or(x == y, nd.And(x != x, y != y))
	case string:
		return nd.StrEq(x, b.(string))
	case []byte:
		return nd.StrEq(string(x), string(b.([]byte)))
	case bson.ObjectID:
		return x == b.(bson.ObjectID)
	case bool:
		return x == b.(bool)
	case Date:
		return x.Ms == b.(Date).Ms
	case *Doc:
		y := b.(*Doc)
		if len(x.Keys) != len(y.Keys) {
			return false
		}
		r := true
		for i, k := range x.Keys {
			// order of fields matters to MongoDB, but a program's unordered maps decide it
			v, ok := y.Get(k)
			if !ok {
				return false
			}
			r = nd.And(r, equal(x.Vals[i], v))
		}
		return r
	case []interface{}:
		y := b.([]interface{})
		if len(x) != len(y) {
			return false
		}
		r := true
		for i := range x {
			r = nd.And(r, equal(x[i], y[i]))
		}
		return r
	}
	return false
}

func before(a, b *Doc, o *Doc) bool {
	for i, k := range o.Keys {
		dir, ok := o.Vals[i].(int64)
		if !ok || dir != 1 && dir != -1 {
			nd.Unsupported("a sort direction that is not 1 or -1")
		}
		x, _ := a.path(k)
		y, _ := b.path(k)
		if dir < 0 {
			x, y = y, x
		}
		if less(x, y) {
			return true
		}
		if less(y, x) {
			return false
		}
	}
	return false
}

func matches(d *Doc, f *Doc) bool {
	for i, k := range f.Keys {
		v := f.Vals[i]
		switch k {
		case "$and", "$or", "$nor":
			l, ok := v.([]interface{})
			if !ok || len(l) == 0 {
				nd.Unsupported(k + " without a list")
			}
			any, all := false, true
			for _, x := range l {
				if matches(d, x.(*Doc)) {
					any = true
				} else {
					all = false
				}
			}
			if k == "$and" && !all || k == "$or" && !any || k == "$nor" && any {
				return false
			}
			continue
		}
		if k != "" && k[0] == '$' {
			nd.Unsupported("the query operator " + k)
		}
		cur, has := d.path(k)
		if x, ok := v.(*Doc); ok && len(x.Keys) > 0 && len(x.Keys[0]) > 0 && x.Keys[0][0] == '$' {
			if !condition(cur, has, x) {
				return false
			}
			continue
		}
		if !is(cur, v) {
			return false
		}
	}
	return true
}

// is tests equality as a filter does: an array matches if it or an element is equal.
func is(cur, v interface{}) bool {
	if l, ok := cur.([]interface{}); ok {
		for _, x := range l {
			if equal(x, v) {
				return true
			}
		}
	}
	return equal(cur, v)
}

func condition(cur interface{}, has bool, c *Doc) bool {
	for i, op := range c.Keys {
		v := c.Vals[i]
		ok := false
		same := has && class(cur) == class(v)
		switch op {
		case "$eq":
			ok = is(cur, v)
		case "$ne":
			ok = !is(cur, v)
		case "$in", "$nin":
			l, isl := v.([]interface{})
			if !isl {
				nd.Unsupported("$in without a list")
			}
			for _, x := range l {
				if is(cur, x) {
					ok = true
					break
				}
			}
			if op == "$nin" {
				ok = !ok
			}
		case "$exists":
			ok = has == truthy(v)
		case "$gt":
			ok = same && less(v, cur)
		case "$gte":
			ok = same && !less(cur, v)
		case "$lt":
			ok = same && less(cur, v)
		case "$lte":
			ok = same && !less(v, cur)
		default:
			nd.Unsupported("the query operator " + op)
		}
		if !ok {
			return false
		}
	}
	return true
}

// field is what a struct field is called in a document.
type field struct {
	name            string
	omitempty, skip bool
}

func fieldOf(p interface{}, i int) field {
	n := nd.FieldName(p, i)
	tag := nd.FieldTag(p, i)
	f := field{name: strings.ToLower(n)}
	if n[0] < 'A' || n[0] > 'Z' {
		f.skip = true
		return f
	}
	at := strings.Index(tag, "bson:\"")
	if at < 0 {
		// a tag without a key is a bson tag
		if tag != "" && !strings.Contains(tag, ":") {
			nd.Unsupported("a bare bson tag")
		}
		return f
	}
	t := tag[at+len("bson:\""):]
	t = t[:strings.Index(t, "\"")]
	for j, s := range strings.Split(t, ",") {
		switch {
		case j == 0 && s == "-":
			f.skip = true
		case j == 0 && s != "":
			f.name = s
		case j > 0 && s == "omitempty":
			f.omitempty = true
		case j > 0 && s != "":
			nd.Unsupported("the bson option " + s)
		}
	}
	return f
}

func errType(name string) error { return fmt.Errorf("error decoding key %s: wrong type", name) }

// Decode decodes the document d as the driver decodes it into the struct into points to.
func Decode(d interface{}, into interface{}) error {
	doc, ok := d.(*Doc)
	if !ok {
		return errors.New("not a document")
	}
	if m, ok := into.(*bson.M); ok {
		*m = bson.M{}
		for i, k := range doc.Keys {
			(*m)[k] = plain(doc.Vals[i])
		}
		return nil
	}
	n := nd.Fields(into)
	if n < 0 {
		nd.Unsupported("decoding into a type the MongoDB model does not know")
	}
	for i := 0; i < n; i++ {
		f := fieldOf(into, i)
		if f.skip {
			continue
		}
		v, ok := doc.Get(f.name)
		if !ok {
			for j, k := range doc.Keys {
				if strings.ToLower(k) == f.name {
					v, ok = doc.Vals[j], true
				}
			}
		}
		if !ok {
			continue
		}
		if !decode(v, nd.FieldPtr(into, i)) {
			return errType(f.name)
		}
	}
	return nil
}

// plain is what a value becomes in a variable of type any.
func plain(v interface{}) interface{} {
	switch v := v.(type) {
	case Date:
		return bson.DateTime(v.Ms)
	case []byte:
		return bson.Binary{Data: v}
	case *Doc:
		m := bson.D{}
		for i, k := range v.Keys {
			m = append(m, bson.E{Key: k, Value: plain(v.Vals[i])})
		}
		return m
	}
	return v
}

func decode(v interface{}, p interface{}) bool {
	switch p := p.(type) {
	case *string:
		if v == nil {
			*p = ""
			return true
		}
		s, ok := v.(string)
		if ok {
			*p = s
		}
		return ok
	case *bool:
		switch v := v.(type) {
		case nil:
			*p = false
		case bool:
			*p = v
		case int64:
			*p = v != 0
		case float64:
			*p = v != 0
		default:
			return false
		}
		return true
	case *int64:
		switch v := v.(type) {
		case nil:
			*p = 0
		case int64:
			*p = v
		case bool:
			*p = nd.B2I(v)
		case float64:
			if v != float64(int64(v)) {
				return false
			}
			*p = int64(v)
		default:
			return false
		}
		return true
	case **int64:
		if v == nil {
			*p = nil
			return true
		}
		var x int64
		if !decode(v, &x) {
			return false
		}
		*p = &x
		return true
	case *float64:
		switch v := v.(type) {
		case nil:
			*p = 0
		case int64:
			*p = float64(v)
		case float64:
			*p = v
		default:
			return false
		}
		return true
	case *time.Time:
		switch v := v.(type) {
		case nil:
			*p = time.Time{}
		case Date:
			*p = time.UnixMilli(v.Ms).UTC()
		default:
			return false
		}
		return true
	case **time.Time:
		if v == nil {
			*p = nil
			return true
		}
		var t time.Time
		if !decode(v, &t) {
			return false
		}
		*p = &t
		return true
	case *interface{}:
		*p = plain(v)
		return true
	case *map[string]string:
		if v == nil {
			*p = nil
			return true
		}
		d, ok := v.(*Doc)
		if !ok {
			return false
		}
		if *p == nil {
			*p = map[string]string{}
		}
		for i, k := range d.Keys {
			s, ok := d.Vals[i].(string)
			if !ok {
				return false
			}
			(*p)[k] = s
		}
		return true
	case *map[string]*anypb.Any:
		if v == nil {
			*p = nil
			return true
		}
		d, ok := v.(*Doc)
		if !ok {
			return false
		}
		if *p == nil {
			*p = map[string]*anypb.Any{}
		}
		for i, k := range d.Keys {
			if d.Vals[i] == nil {
				(*p)[k] = nil
				continue
			}
			a := &anypb.Any{}
			if Decode(d.Vals[i], a) != nil {
				return false
			}
			(*p)[k] = a
		}
		return true
	case *[]byte:
		switch v := v.(type) {
		case nil:
			*p = nil
		case []byte:
			*p = append([]byte{}, v...)
		case string:
			*p = []byte(v)
		default:
			return false
		}
		return true
	}
	if structPtr(v, p) {
		return true
	}
	nd.Unsupported("decoding into a field type the MongoDB model does not know")
	return false
}
