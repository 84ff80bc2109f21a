// Package hmongo is a model of a MongoDB deployment behind the driver's collections: documents in
// memory, updates, filters, sorting and decoding as the MongoDB manual describes them.
package hmongo

import (
	"context"
	"errors"
	"sort"

	"github.com/takenet/deckard/internal/zzverif/nd"
	"go.mongodb.org/mongo-driver/v2/bson"
	"go.mongodb.org/mongo-driver/v2/mongo"
	"go.mongodb.org/mongo-driver/v2/mongo/options"
	"go.mongodb.org/mongo-driver/v2/mongo/readpref"
)

// Server is a deployment of one primary and one secondary.
type Server struct {
	colls map[string]*coll
	ids   int

	// Lag makes reads that may go to the secondary miss what was written since Sync.
	Lag bool
	// Fail decides whether a command fails: 0 no, 1 before it does anything, 2 after doing everything.
	Fail func(cmd *mongo.VerifCommand) int

	Connects, Pings, Disconnects int
	// Up decides whether the deployment answers a ping.
	Up func() error
	// Down decides whether disconnecting reports a failure.
	Down    func() error
	Options []*options.ClientOptions
	Modes   []readpref.Mode
	Open    map[*mongo.Client]bool
	Log     []string
}

type coll struct {
	docs []*Doc
	old  []*Doc // what the secondary has
}

// ErrServer is what a failing command reports.
var ErrServer = errors.New("server failure")

// New starts a deployment and makes the driver use it.
func New() *Server {
	s := &Server{colls: map[string]*coll{}, Open: map[*mongo.Client]bool{}}
	mongo.VerifRun = s.run
	mongo.VerifDecode = Decode
	mongo.VerifDecodeAll = DecodeAll
	return s
}

func (s *Server) coll(db, name string) *coll {
	k := db + "." + name
	c := s.colls[k]
	if c == nil {
		c = &coll{}
		s.colls[k] = c
	}
	return c
}

// Docs is the content of a collection of the primary.
func (s *Server) Docs(db, name string) []*Doc { return s.coll(db, name).docs }

// Collections is the number of collections that have documents.
func (s *Server) Collections() int {
	n := 0
	for _, c := range s.colls {
		if len(c.docs) > 0 {
			n++
		}
	}
	return n
}

// Put stores a document as it is.
func (s *Server) Put(db, name string, d *Doc) {
	if _, ok := d.Get("_id"); !ok {
		d.Put("_id", s.id())
	}
	c := s.coll(db, name)
	c.docs = append(c.docs, d)
}

// Sync brings the secondary up to date.
func (s *Server) Sync() {
	for _, c := range s.colls {
		c.old = nil
		for _, d := range c.docs {
			c.old = append(c.old, d.clone())
		}
	}
}

// ID is the n-th identifier the deployment gives, from 1.
func ID(n int) bson.ObjectID {
	var o bson.ObjectID
	o[0] = 0x65
	o[10], o[11] = byte(n>>8), byte(n)
	return o
}

func (s *Server) id() bson.ObjectID {
	s.ids++
	return ID(s.ids)
}

func (s *Server) run(ctx context.Context, cmd *mongo.VerifCommand) *mongo.VerifReply {
	r := &mongo.VerifReply{}
	if cmd.Other != "" {
		nd.Unsupported("a MongoDB " + cmd.Other + " of " + cmd.Op)
	}
	s.Log = append(s.Log, cmd.Op)
	switch cmd.Op {
	case "connect":
		s.Connects++
		s.Options = append(s.Options, cmd.Options)
		s.Modes = append(s.Modes, cmd.Mode)
		s.Open[cmd.Client] = true
		return r
	case "ping":
		s.Pings++
		if s.Up != nil {
			r.Err = s.Up()
		}
		return r
	case "disconnect":
		s.Disconnects++
		if !s.Open[cmd.Client] {
			r.Err = mongo.ErrClientDisconnected
		}
		if s.Down != nil && r.Err == nil {
			r.Err = s.Down()
		}
		delete(s.Open, cmd.Client)
		return r
	}
	if err := ctx.Err(); err != nil {
		r.Err = err
		return r
	}
	fail := 0
	if s.Fail != nil {
		fail = s.Fail(cmd)
	}
	if fail == 1 {
		r.Err = ErrServer
		return r
	}
	s.exec(cmd, r)
	if fail == 2 && r.Err == nil {
		r.Err = ErrServer
	}
	return r
}

func (s *Server) exec(cmd *mongo.VerifCommand, r *mongo.VerifReply) {
	c := s.coll(cmd.Database, cmd.Collection)
	read := c.docs
	if s.Lag && cmd.Mode != readpref.PrimaryMode && cmd.Mode != readpref.PrimaryPreferredMode {
		read = c.old
	}
	switch cmd.Op {
	case "updateOne", "updateMany":
		s.update(c, cmd.Filter, cmd.Update, cmd.Upsert, cmd.Op == "updateMany", r)
	case "deleteOne", "deleteMany":
		s.remove(c, cmd.Filter, cmd.Op == "deleteMany", r)
	case "insertOne":
		s.insert(c, cmd.Update, r)
	case "bulkWrite":
		s.bulk(c, cmd, r)
	case "count":
		f := document(cmd.Filter, r)
		for _, d := range read {
			if r.Err == nil && matches(d, f) {
				r.Matched++
			}
		}
		r.Matched -= cmd.Skip
		if r.Matched < 0 {
			r.Matched = 0
		}
		if cmd.Limit > 0 && r.Matched > cmd.Limit {
			r.Matched = cmd.Limit
		}
	case "distinct":
		f := document(cmd.Filter, r)
		if r.Err != nil {
			return
		}
		var vs []interface{}
		for _, d := range read {
			v, ok := d.path(cmd.Field)
			if !ok || !matches(d, f) {
				continue
			}
			seen := false
			for _, x := range vs {
				if equal(x, v) {
					seen = true
					break
				}
			}
			if !seen {
				vs = append(vs, v)
			}
		}
		for _, v := range vs {
			r.Docs = append(r.Docs, v)
		}
	case "find":
		s.find(read, cmd, r)
	default:
		nd.Unsupported("MongoDB operation " + cmd.Op)
	}
}

func (s *Server) find(read []*Doc, cmd *mongo.VerifCommand, r *mongo.VerifReply) {
	f := document(cmd.Filter, r)
	if r.Err != nil {
		return
	}
	var hit []*Doc
	for _, d := range read {
		if matches(d, f) {
			hit = append(hit, d)
		}
	}
	if cmd.Sort != nil {
		o := ordered(cmd.Sort, r)
		if r.Err != nil {
			return
		}
		if len(o.Keys) > 0 {
			sort.SliceStable(hit, func(i, j int) bool { return before(hit[i], hit[j], o) })
		}
	}
	if cmd.Skip > 0 {
		if int(cmd.Skip) >= len(hit) {
			hit = nil
		} else {
			hit = hit[cmd.Skip:]
		}
	}
	limit := cmd.Limit
	if limit < 0 {
		limit = -limit
	}
	if limit > 0 && int64(len(hit)) > limit {
		hit = hit[:limit]
	}
	var p *Doc
	if cmd.Projection != nil {
		p = document(cmd.Projection, r)
	}
	for _, d := range hit {
		x := project(d, p, r)
		if r.Err != nil {
			r.Docs = nil
			return
		}
		r.Docs = append(r.Docs, x)
	}
}

func project(d *Doc, p *Doc, r *mongo.VerifReply) *Doc {
	if p == nil || len(p.Keys) == 0 {
		return d.clone()
	}
	in, out := 0, 0
	for i, k := range p.Keys {
		if k == "_id" {
			continue
		}
		if truthy(p.Vals[i]) {
			in++
		} else {
			out++
		}
	}
	if in > 0 && out > 0 {
		r.Err = errors.New("cannot do exclusion on a field in inclusion projection")
		return nil
	}
	id := true
	if v, ok := p.Get("_id"); ok {
		id = truthy(v)
		if id && in == 0 && out == 0 {
			in++
		}
	}
	x := d.clone()
	if in > 0 {
		x = &Doc{}
		for i, k := range p.Keys {
			if k == "_id" || !truthy(p.Vals[i]) {
				continue
			}
			if v, ok := d.path(k); ok {
				if !x.set(k, copied(v)) {
					nd.Unsupported("a projection of overlapping paths")
				}
			}
		}
		if id {
			if v, ok := d.Get("_id"); ok {
				x.Put("_id", v)
			}
		}
		return x
	}
	for i, k := range p.Keys {
		if k != "_id" && !truthy(p.Vals[i]) {
			x.unset(k)
		}
	}
	if !id {
		x.unset("_id")
	}
	return x
}

func truthy(v interface{}) bool {
	switch v := v.(type) {
	case bool:
		return v
	case int64:
		return v != 0
	case float64:
		return v != 0
	}
	nd.Unsupported("a projection expression")
	return false
}

func (s *Server) remove(c *coll, filter interface{}, many bool, r *mongo.VerifReply) {
	f := document(filter, r)
	if r.Err != nil {
		return
	}
	var keep []*Doc
	for _, d := range c.docs {
		if (many || r.Deleted == 0) && matches(d, f) {
			r.Deleted++
		} else {
			keep = append(keep, d)
		}
	}
	c.docs = keep
}

func (s *Server) insert(c *coll, doc interface{}, r *mongo.VerifReply) {
	d := document(doc, r)
	if r.Err != nil {
		return
	}
	d = d.clone()
	if _, ok := d.Get("_id"); !ok {
		d.Put("_id", s.id())
	}
	if s.taken(c, d) {
		r.Err = errors.New("E11000 duplicate key error")
		return
	}
	c.docs = append(c.docs, d)
}

func (s *Server) taken(c *coll, d *Doc) bool {
	id, _ := d.Get("_id")
	for _, e := range c.docs {
		if x, _ := e.Get("_id"); equal(x, id) {
			return true
		}
	}
	return false
}

func (s *Server) bulk(c *coll, cmd *mongo.VerifCommand, r *mongo.VerifReply) {
	var first error
	for _, m := range cmd.Models {
		x := &mongo.VerifReply{}
		switch m := m.(type) {
		case *mongo.UpdateOneModel:
			if m.Collation != nil || m.ArrayFilters != nil || m.Sort != nil {
				nd.Unsupported("options of an update in a bulk write")
			}
			s.update(c, m.Filter, m.Update, m.Upsert != nil && *m.Upsert, false, x)
		case *mongo.UpdateManyModel:
			if m.Collation != nil || m.ArrayFilters != nil {
				nd.Unsupported("options of an update in a bulk write")
			}
			s.update(c, m.Filter, m.Update, m.Upsert != nil && *m.Upsert, true, x)
		case *mongo.DeleteOneModel:
			s.remove(c, m.Filter, false, x)
		case *mongo.DeleteManyModel:
			s.remove(c, m.Filter, true, x)
		default:
			nd.Unsupported("a kind of bulk write")
		}
		r.Matched += x.Matched
		r.Modified += x.Modified
		r.Upserted += x.Upserted
		r.Deleted += x.Deleted
		if x.Err != nil && first == nil {
			first = x.Err
			if cmd.Ordered {
				break
			}
		}
	}
	r.Err = first
}

func (s *Server) update(c *coll, filter, update interface{}, upsert, many bool, r *mongo.VerifReply) {
	f := document(filter, r)
	if r.Err != nil {
		return
	}
	u := document(update, r)
	if r.Err != nil {
		return
	}
	if len(u.Keys) == 0 {
		r.Err = errors.New("update document must have at least one element")
		return
	}
	if err := conflicts(u); err != nil {
		r.Err = err
		return
	}
	for i, d := range c.docs {
		if !matches(d, f) {
			continue
		}
		r.Matched++
		n := d.clone()
		if err := apply(n, u, false); err != nil {
			r.Err = err
			return
		}
		if !equal(n, d) {
			if a, _ := d.Get("_id"); true {
				if b, _ := n.Get("_id"); !equal(a, b) {
					r.Err = errors.New("the field _id is immutable")
					return
				}
			}
			r.Modified++
			c.docs[i] = n
		}
		if !many {
			return
		}
	}
	if r.Matched > 0 || !upsert {
		return
	}
	n := &Doc{}
	for i, k := range f.Keys {
		v := f.Vals[i]
		if x, ok := v.(*Doc); ok && len(x.Keys) > 0 && x.Keys[0][0] == '$' {
			e, has := x.Get("$eq")
			if !has {
				continue
			}
			v = e
		} else if k[0] == '$' {
			nd.Unsupported("an upsert with " + k)
		}
		if !n.set(k, copied(v)) {
			r.Err = errors.New("upsert: conflicting filter paths")
			return
		}
	}
	if err := apply(n, u, true); err != nil {
		r.Err = err
		return
	}
	if _, ok := n.Get("_id"); !ok {
		n.Put("_id", s.id())
	}
	if s.taken(c, n) {
		r.Err = errors.New("E11000 duplicate key error")
		return
	}
	c.docs = append(c.docs, n)
	r.Upserted++
}

// conflicts refuses an update that names a field, or a field and its parent, twice.
func conflicts(u *Doc) error {
	var paths []string
	for i, op := range u.Keys {
		if len(op) == 0 || op[0] != '$' {
			return errors.New("update document must only contain update operators")
		}
		d, ok := u.Vals[i].(*Doc)
		if !ok {
			return errors.New("modifiers operate on fields")
		}
		for _, k := range d.Keys {
			for _, p := range paths {
				if p == k || len(p) > len(k) && p[:len(k)] == k && p[len(k)] == '.' || len(k) > len(p) && k[:len(p)] == p && k[len(p)] == '.' {
					return errors.New("updating the path '" + k + "' would create a conflict")
				}
			}
			paths = append(paths, k)
		}
	}
	return nil
}

func apply(d *Doc, u *Doc, insert bool) error {
	for i, op := range u.Keys {
		f := u.Vals[i].(*Doc)
		for j, k := range f.Keys {
			v := f.Vals[j]
			switch op {
			case "$set", "$setOnInsert":
				if op == "$setOnInsert" && !insert {
					continue
				}
				if !d.set(k, copied(v)) {
					return errors.New("cannot create field in element")
				}
			case "$unset":
				d.unset(k)
			case "$inc":
				cur, ok := d.path(k)
				if !ok {
					if !number(v) {
						return errors.New("cannot increment with non-numeric argument")
					}
					if !d.set(k, v) {
						return errors.New("cannot create field in element")
					}
					continue
				}
				x, err := add(cur, v)
				if err != nil {
					return err
				}
				d.set(k, x)
			case "$min", "$max":
				cur, ok := d.path(k)
				if !ok || op == "$min" && less(v, cur) || op == "$max" && less(cur, v) {
					d.set(k, copied(v))
				}
			default:
				nd.Unsupported("the update operator " + op)
			}
		}
	}
	return nil
}

func number(v interface{}) bool {
	switch v.(type) {
	case int64, float64:
		return true
	}
	return false
}

func add(a, b interface{}) (interface{}, error) {
	switch x := a.(type) {
	case int64:
		switch y := b.(type) {
		case int64:
			z := x + y
			if (z > x) != (y > 0) && y != 0 {
				return nil, errors.New("failed to apply $inc: integer overflow")
			}
			return z, nil
		case float64:
			return float64(x) + y, nil
		}
	case float64:
		switch y := b.(type) {
		case int64:
			return x + float64(y), nil
		case float64:
			return x + y, nil
		}
	}
	return nil, errors.New("cannot apply $inc to a value of non-numeric type")
}
