package main

func mongoRead(op string) string {
	return "if VerifRun != nil {\nreturn verif" + op + "\n}"
}

// The MongoDB driver: the operations of a collection go to a model of the server as one command
// with the filter, update and options as the program gave them.
func init() {
	modCopies = append(modCopies, modCopy{
		module: "go.mongodb.org/mongo-driver/v2",
		dir:    "go.mongodb.org/mongo-driver/v2",
		name:   "gomongo",
		skip: []string{"testdata", "docs", "etc", "internal/cmd", "internal/docexamples", "internal/integration", "internal/integtest", "internal/test",
			"internal/testutil", "internal/spectest", "internal/assert", "internal/require", "internal/eventtest", "internal/failpoint"},
		inject: []injection{
			{"mongo/client.go", "func Connect(opts ...*options.ClientOptions) (*Client, error) {", "if VerifRun != nil {\nreturn verifConnect(opts)\n}"},
			{"mongo/client.go", "func (c *Client) Disconnect(ctx context.Context) error {", "if VerifRun != nil {\nr := VerifRun(ctx, &VerifCommand{Op: \"disconnect\", Client: c, Mode: c.readPreference.Mode()})\nreturn r.Err\n}"},
			{"mongo/client.go", "func (c *Client) Ping(ctx context.Context, rp *readpref.ReadPref) error {", "if VerifRun != nil {\nr := VerifRun(ctx, &VerifCommand{Op: \"ping\", Client: c, Mode: c.readPreference.Mode()})\nreturn r.Err\n}"},
			{"mongo/database.go", "func newDatabase(client *Client, name string, opts ...options.Lister[options.DatabaseOptions]) *Database {", "if VerifRun != nil {\nreturn verifDatabase(client, name, opts)\n}"},
			{"mongo/collection.go", "func newCollection(db *Database, name string, opts ...options.Lister[options.CollectionOptions]) *Collection {", "if VerifRun != nil {\nreturn verifCollection(db, name, opts)\n}"},
			{"mongo/collection.go", "func (coll *Collection) BulkWrite(ctx context.Context, models []WriteModel,\n\topts ...options.Lister[options.BulkWriteOptions],\n) (*BulkWriteResult, error) {", mongoRead("BulkWrite(ctx, coll, models, opts)")},
			{"mongo/collection.go", "func (coll *Collection) InsertOne(ctx context.Context, document any,\n\topts ...options.Lister[options.InsertOneOptions],\n) (*InsertOneResult, error) {", mongoRead("InsertOne(ctx, coll, document)")},
			{"mongo/collection.go", "func (coll *Collection) DeleteOne(\n\tctx context.Context,\n\tfilter any,\n\topts ...options.Lister[options.DeleteOneOptions],\n) (*DeleteResult, error) {", mongoRead("Delete(ctx, coll, \"deleteOne\", filter)")},
			{"mongo/collection.go", "func (coll *Collection) DeleteMany(\n\tctx context.Context,\n\tfilter any,\n\topts ...options.Lister[options.DeleteManyOptions],\n) (*DeleteResult, error) {", mongoRead("Delete(ctx, coll, \"deleteMany\", filter)")},
			{"mongo/collection.go", "func (coll *Collection) UpdateOne(\n\tctx context.Context,\n\tfilter any,\n\tupdate any,\n\topts ...options.Lister[options.UpdateOneOptions],\n) (*UpdateResult, error) {", mongoRead("UpdateOne(ctx, coll, filter, update, opts)")},
			{"mongo/collection.go", "func (coll *Collection) UpdateMany(\n\tctx context.Context,\n\tfilter any,\n\tupdate any,\n\topts ...options.Lister[options.UpdateManyOptions],\n) (*UpdateResult, error) {", mongoRead("UpdateMany(ctx, coll, filter, update, opts)")},
			{"mongo/collection.go", "func (coll *Collection) CountDocuments(ctx context.Context, filter any,\n\topts ...options.Lister[options.CountOptions],\n) (int64, error) {", mongoRead("Count(ctx, coll, filter, opts)")},
			{"mongo/collection.go", "func (coll *Collection) EstimatedDocumentCount(\n\tctx context.Context,\n\topts ...options.Lister[options.EstimatedDocumentCountOptions],\n) (int64, error) {", mongoRead("Count(ctx, coll, bson.M{}, nil)")},
			{"mongo/collection.go", "func (coll *Collection) Distinct(\n\tctx context.Context,\n\tfieldName string,\n\tfilter any,\n\topts ...options.Lister[options.DistinctOptions],\n) *DistinctResult {", mongoRead("Distinct(ctx, coll, fieldName, filter)")},
			{"mongo/collection.go", "func (coll *Collection) Find(ctx context.Context, filter any,\n\topts ...options.Lister[options.FindOptions],\n) (*Cursor, error) {", mongoRead("Find(ctx, coll, filter, opts)")},
			{"mongo/collection.go", "func (coll *Collection) FindOne(ctx context.Context, filter any,\n\topts ...options.Lister[options.FindOneOptions],\n) *SingleResult {", mongoRead("FindOne(ctx, coll, filter, opts)")},
			{"mongo/cursor.go", "type Cursor struct {", "verif *verifResult\n"},
			{"mongo/cursor.go", "func (c *Cursor) All(ctx context.Context, results any) error {", "if c.verif != nil {\nreturn c.verif.all(results)\n}"},
			{"mongo/cursor.go", "func (c *Cursor) Decode(val any) error {", "if c.verif != nil {\nreturn VerifDecode(c.verif.cur, val)\n}"},
			{"mongo/cursor.go", "func (c *Cursor) next(ctx context.Context, nonBlocking bool) bool {", "if c.verif != nil {\nreturn c.verif.next()\n}"},
			{"mongo/cursor.go", "func (c *Cursor) Close(ctx context.Context) error {", "if c.verif != nil {\nreturn nil\n}"},
			{"mongo/cursor.go", "func (c *Cursor) RemainingBatchLength() int {", "if c.verif != nil {\nreturn len(c.verif.docs)\n}"},
			{"mongo/single_result.go", "type SingleResult struct {", "verif *verifResult\n"},
			{"mongo/single_result.go", "func (sr *SingleResult) Decode(v any) error {", "if sr.verif != nil {\nreturn sr.verif.one(v)\n}"},
			{"mongo/single_result.go", "func (sr *SingleResult) Err() error {", "if sr.verif != nil {\nreturn sr.verif.one(nil)\n}"},
			{"mongo/results.go", "type DistinctResult struct {", "verif *verifResult\n"},
			{"mongo/results.go", "func (dr *DistinctResult) Decode(v any) error {", "if dr.verif != nil {\nif dr.err != nil {\nreturn dr.err\n}\nreturn dr.verif.all(v)\n}"},
			{"mongo/results.go", "func (dr *DistinctResult) Err() error {", "if dr.verif != nil {\nreturn dr.err\n}"},
		},
		extra: map[string]string{"mongo/verif.go": `package mongo

import (
	"context"
	"fmt"

	"go.mongodb.org/mongo-driver/v2/mongo/options"
	"go.mongodb.org/mongo-driver/v2/mongo/readpref"
)

// VerifCommand is one operation as the program asked for it.
type VerifCommand struct {
	Op         string
	Client     *Client
	Database   string
	Collection string
	Mode       readpref.Mode
	Filter     any
	Update     any
	Field      string
	Upsert     bool
	Sort       any
	Projection any
	Limit      int64
	Skip       int64
	Models     []WriteModel
	Ordered    bool
	Options    *options.ClientOptions
	Other      string // an option the model does not know
}

type VerifReply struct {
	Docs     []any
	Matched  int64
	Modified int64
	Upserted int64
	Deleted  int64
	Err      error
}

var VerifRun func(ctx context.Context, cmd *VerifCommand) *VerifReply

// VerifDecode decodes a document of the server into what into points to.
var VerifDecode func(doc any, into any) error

// VerifDecodeAll decodes all into the slice into points to.
var VerifDecodeAll func(docs []any, into any) error

type verifResult struct {
	docs []any
	cur  any
	err  error
}

func (r *verifResult) next() bool {
	if len(r.docs) == 0 {
		return false
	}
	r.cur, r.docs = r.docs[0], r.docs[1:]
	return true
}

func (r *verifResult) all(into any) error {
	d := r.docs
	r.docs = nil
	return VerifDecodeAll(d, into)
}

func (r *verifResult) one(into any) error {
	if r.err != nil {
		return r.err
	}
	if len(r.docs) == 0 {
		return ErrNoDocuments
	}
	if into == nil {
		return nil
	}
	return VerifDecode(r.docs[0], into)
}

func verifArgs[T any](opts []options.Lister[T]) (*T, error) {
	args := new(T)
	for _, o := range opts {
		if o == nil {
			continue
		}
		for _, set := range o.List() {
			if set == nil {
				continue
			}
			if err := set(args); err != nil {
				return nil, err
			}
		}
	}
	return args, nil
}

func verifConnect(opts []*options.ClientOptions) (*Client, error) {
	c := &Client{readPreference: readpref.Primary()}
	var o *options.ClientOptions
	for _, x := range opts {
		if x == nil {
			continue
		}
		o = x
		if x.ReadPreference != nil {
			c.readPreference = x.ReadPreference
		}
	}
	r := VerifRun(context.Background(), &VerifCommand{Op: "connect", Client: c, Mode: c.readPreference.Mode(), Options: o})
	if r.Err != nil {
		return nil, r.Err
	}
	return c, nil
}

func verifDatabase(client *Client, name string, opts []options.Lister[options.DatabaseOptions]) *Database {
	a, _ := verifArgs(opts)
	rp := client.readPreference
	if a.ReadPreference != nil {
		rp = a.ReadPreference
	}
	return &Database{client: client, name: name, readPreference: rp}
}

func verifCollection(db *Database, name string, opts []options.Lister[options.CollectionOptions]) *Collection {
	a, _ := verifArgs(opts)
	rp := db.readPreference
	if a.ReadPreference != nil {
		rp = a.ReadPreference
	}
	return &Collection{client: db.client, db: db, name: name, readPreference: rp}
}

func (coll *Collection) verif(op string) *VerifCommand {
	return &VerifCommand{Op: op, Client: coll.client, Database: coll.db.name, Collection: coll.name, Mode: coll.readPreference.Mode()}
}

func verifOther(known bool) string {
	if known {
		return ""
	}
	return "option"
}

func verifBulkWrite(ctx context.Context, coll *Collection, models []WriteModel, opts []options.Lister[options.BulkWriteOptions]) (*BulkWriteResult, error) {
	if len(models) == 0 {
		return nil, fmt.Errorf("invalid models: %w", ErrEmptySlice)
	}
	a, err := verifArgs(append([]options.Lister[options.BulkWriteOptions]{options.BulkWrite()}, opts...))
	if err != nil {
		return nil, err
	}
	c := coll.verif("bulkWrite")
	c.Models, c.Ordered, c.Other = models, a.Ordered == nil || *a.Ordered, verifOther(a.Let == nil)
	r := VerifRun(ctx, c)
	return &BulkWriteResult{MatchedCount: r.Matched, ModifiedCount: r.Modified, UpsertedCount: r.Upserted, DeletedCount: r.Deleted, Acknowledged: true}, r.Err
}

func verifInsertOne(ctx context.Context, coll *Collection, document any) (*InsertOneResult, error) {
	c := coll.verif("insertOne")
	c.Update = document
	r := VerifRun(ctx, c)
	if r.Err != nil {
		return nil, r.Err
	}
	return &InsertOneResult{Acknowledged: true}, nil
}

func verifDelete(ctx context.Context, coll *Collection, op string, filter any) (*DeleteResult, error) {
	c := coll.verif(op)
	c.Filter = filter
	r := VerifRun(ctx, c)
	if r.Err != nil {
		return nil, r.Err
	}
	return &DeleteResult{DeletedCount: r.Deleted, Acknowledged: true}, nil
}

func verifUpdated(r *VerifReply) (*UpdateResult, error) {
	if r.Err != nil {
		return nil, r.Err
	}
	return &UpdateResult{MatchedCount: r.Matched, ModifiedCount: r.Modified, UpsertedCount: r.Upserted, Acknowledged: true}, nil
}

func verifUpdateOne(ctx context.Context, coll *Collection, filter, update any, opts []options.Lister[options.UpdateOneOptions]) (*UpdateResult, error) {
	a, err := verifArgs(opts)
	if err != nil {
		return nil, err
	}
	c := coll.verif("updateOne")
	c.Filter, c.Update, c.Upsert, c.Sort = filter, update, a.Upsert != nil && *a.Upsert, a.Sort
	c.Other = verifOther(a.ArrayFilters == nil && a.Collation == nil && a.Let == nil && a.Sort == nil)
	return verifUpdated(VerifRun(ctx, c))
}

func verifUpdateMany(ctx context.Context, coll *Collection, filter, update any, opts []options.Lister[options.UpdateManyOptions]) (*UpdateResult, error) {
	a, err := verifArgs(opts)
	if err != nil {
		return nil, err
	}
	c := coll.verif("updateMany")
	c.Filter, c.Update, c.Upsert = filter, update, a.Upsert != nil && *a.Upsert
	c.Other = verifOther(a.ArrayFilters == nil && a.Collation == nil && a.Let == nil)
	return verifUpdated(VerifRun(ctx, c))
}

func verifCount(ctx context.Context, coll *Collection, filter any, opts []options.Lister[options.CountOptions]) (int64, error) {
	a, err := verifArgs(opts)
	if err != nil {
		return 0, err
	}
	c := coll.verif("count")
	c.Filter = filter
	if a.Limit != nil {
		c.Limit = *a.Limit
	}
	if a.Skip != nil {
		c.Skip = *a.Skip
	}
	c.Other = verifOther(a.Collation == nil)
	r := VerifRun(ctx, c)
	return r.Matched, r.Err
}

func verifDistinct(ctx context.Context, coll *Collection, field string, filter any) *DistinctResult {
	c := coll.verif("distinct")
	c.Field, c.Filter = field, filter
	r := VerifRun(ctx, c)
	return &DistinctResult{err: r.Err, verif: &verifResult{docs: r.Docs}}
}

func verifFind(ctx context.Context, coll *Collection, filter any, opts []options.Lister[options.FindOptions]) (*Cursor, error) {
	a, err := verifArgs(opts)
	if err != nil {
		return nil, err
	}
	c := coll.verif("find")
	c.Filter, c.Sort, c.Projection = filter, a.Sort, a.Projection
	if a.Limit != nil {
		c.Limit = *a.Limit
	}
	if a.Skip != nil {
		c.Skip = *a.Skip
	}
	c.Other = verifOther(a.Collation == nil && a.Max == nil && a.Min == nil && a.Let == nil && a.ReturnKey == nil && a.ShowRecordID == nil && a.CursorType == nil)
	r := VerifRun(ctx, c)
	if r.Err != nil {
		return nil, r.Err
	}
	return &Cursor{verif: &verifResult{docs: r.Docs}}, nil
}

func verifFindOne(ctx context.Context, coll *Collection, filter any, opts []options.Lister[options.FindOneOptions]) *SingleResult {
	a, err := verifArgs(opts)
	if err != nil {
		return &SingleResult{err: err, verif: &verifResult{err: err}}
	}
	c := coll.verif("find")
	c.Filter, c.Sort, c.Projection, c.Limit = filter, a.Sort, a.Projection, -1
	if a.Skip != nil {
		c.Skip = *a.Skip
	}
	c.Other = verifOther(a.Collation == nil && a.Max == nil && a.Min == nil && a.ReturnKey == nil && a.ShowRecordID == nil)
	r := VerifRun(ctx, c)
	return &SingleResult{err: r.Err, verif: &verifResult{docs: r.Docs, err: r.Err}}
}
`}})
}
