package hmongo

import (
	"context"
	"errors"
	"time"

	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/queue/configuration"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/zzverif/nd"
	"google.golang.org/protobuf/types/known/anypb"
)

// structPtr decodes into the fields that hold a struct of their own.
func structPtr(v interface{}, p interface{}) bool {
	switch p := p.(type) {
	case **message.MessageDiagnostics:
		if v == nil {
			*p = nil
			return true
		}
		x := &message.MessageDiagnostics{}
		*p = x
		return Decode(v, x) == nil
	case *message.MessageDiagnostics:
		return Decode(v, p) == nil
	}
	return false
}

// EncodeStruct is the document a pointer to a struct is sent as.
func EncodeStruct(p interface{}) interface{} {
	d := &Doc{}
	n := nd.Fields(p)
	for i := 0; i < n; i++ {
		f := fieldOf(p, i)
		if f.skip {
			continue
		}
		v := load(nd.FieldPtr(p, i))
		if f.omitempty && empty(v) {
			continue
		}
		d.Put(f.name, encode(v))
	}
	return d
}

func empty(v interface{}) bool {
	switch v := v.(type) {
	case nil:
		return true
	case string:
		return v == ""
	case int64:
		return v == 0
	case Date:
		return false
	}
	x := encode(v)
	d, ok := x.(*Doc)
	return x == nil || ok && len(d.Keys) == 0
}

// DecodeAll decodes documents into the slice into points to.
func DecodeAll(docs []interface{}, into interface{}) error {
	switch r := into.(type) {
	case *[]message.Message:
		out := (*r)[:0]
		for _, d := range docs {
			var m message.Message
			if err := Decode(d, &m); err != nil {
				return err
			}
			out = append(out, m)
		}
		*r = out
		return nil
	case *[]*message.Message:
		out := (*r)[:0]
		for _, d := range docs {
			m := &message.Message{}
			if err := Decode(d, m); err != nil {
				return err
			}
			out = append(out, m)
		}
		*r = out
		return nil
	case *[]*configuration.QueueConfiguration:
		out := (*r)[:0]
		for _, d := range docs {
			m := &configuration.QueueConfiguration{}
			if err := Decode(d, m); err != nil {
				return err
			}
			out = append(out, m)
		}
		*r = out
		return nil
	case *[]configuration.QueueConfiguration:
		out := (*r)[:0]
		for _, d := range docs {
			var m configuration.QueueConfiguration
			if err := Decode(d, &m); err != nil {
				return err
			}
			out = append(out, m)
		}
		*r = out
		return nil
	case *[]string:
		out := (*r)[:0]
		for _, d := range docs {
			s, ok := d.(string)
			if !ok {
				return errors.New("not a string")
			}
			out = append(out, s)
		}
		*r = out
		return nil
	}
	nd.Unsupported("decoding into a list the MongoDB model does not know")
	return nil
}

// Names of the collections in use.
const (
	Database      = "deckard"
	Messages      = "queue"
	Configuration = "queue_configuration"
)

// Connect creates the storage as production does, against a deployment of this package.
func Connect() (*storage.MongoStorage, *Server) {
	s := New()
	config.StorageUri.Set("mongodb://db:27017/x")
	config.MongoDatabase.Set(Database)
	config.MongoCollection.Set(Messages)
	config.MongoQueueConfigurationCollection.Set(Configuration)
	config.StorageConnectionRetryEnabled.Set(false)
	st, err := storage.NewMongoStorage(context.Background())
	if err != nil {
		panic(err.Error())
	}
	nd.Assert(err == nil && st != nil, "the storage connects to a deployment that answers")
	return st, s
}

// load is what p points to.
func load(p interface{}) interface{} {
	switch p := p.(type) {
	case *string:
		return *p
	case *bool:
		return *p
	case *int64:
		return *p
	case *float64:
		return *p
	case *[]byte:
		return *p
	case *interface{}:
		return *p
	case **int64:
		if *p == nil {
			return nil
		}
		return **p
	case *map[string]string:
		return *p
	case *map[string]*anypb.Any:
		return *p
	case **message.MessageDiagnostics:
		if *p == nil {
			return nil
		}
		return *p
	}
	if t, ok := loadTime(p); ok {
		return t
	}
	nd.Unsupported("a field type the MongoDB model does not know")
	return nil
}

func loadTime(p interface{}) (interface{}, bool) {
	switch p := p.(type) {
	case *time.Time:
		return *p, true
	case **time.Time:
		if *p == nil {
			return nil, true
		}
		return **p, true
	}
	return nil, false
}
