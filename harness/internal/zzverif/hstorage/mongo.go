package hstorage

import (
	"context"
	"strconv"
	"time"

	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/dtime"
	"github.com/takenet/deckard/internal/queue/configuration"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/zzverif/hmongo"
	"github.com/takenet/deckard/internal/zzverif/nd"
	"go.mongodb.org/mongo-driver/v2/mongo"
)

func init() {
	// internal identifiers are object identifiers, given in order of insertion
	mongoID = func(n int) string { return hmongo.ID(n).Hex() }
	mongoWorld = func(w *world) {
		st, srv := hmongo.Connect()
		w.s, w.mongo, servers[w] = st, true, srv
		w.put = func(m *message.Message) {
			m.LastUsage = &w.t
			d := hmongo.EncodeStruct(m).(*hmongo.Doc)
			d.DropNulls() // a field nothing was ever written to is not there
			srv.Put(hmongo.Database, hmongo.Messages, d)
		}
	}
}

var servers = map[*world]*hmongo.Server{}

type mworld struct {
	*world
	srv *hmongo.Server
}

func newMongo() mworld {
	useMongo = true
	w := newWorld()
	return mworld{w, servers[w]}
}

func onMongo(f func()) {
	useMongo = true
	f()
}

func VH_P21_Find()          { onMongo(VH_P27_Find) }
func VH_P21_Filters()       { onMongo(VH_P27_Filters) }
func VH_P21_FindThree()     { onMongo(VH_P27_FindThree) }
func VH_P21_Many()          { onMongo(VH_P27_Many) }
func VH_P21_TwoKeys()       { onMongo(VH_P27_TwoKeys) }
func VH_P21_Count()         { onMongo(VH_P27_Count) }
func VH_P21_BadBreakpoint() { onMongo(VH_P27_BadBreakpoint) }
func VH_P21_AckStep()       { onMongo(VH_P15_Step) }
func VH_P21_AckSequence()   { onMongo(VH_P15_Sequence) }
func VH_P21_Removal()       { onMongo(VH_P07_Storage) }
func VH_P21_Step()          { onMongo(VH_P26_StorageStep) }
func VH_P21_Content()       { onMongo(VH_P26_StorageContent) }
func VH_P21_Batch()         { onMongo(VH_P26_StorageBatch) }
func VH_P21_Names()         { onMongo(VH_P08_Storage) }
func VH_P21_Configuration() { onMongo(VH_P16_Storage) }

// a read that must not miss anything sees what the secondary does not have yet
func VH_P21_RetryRead() {
	st, srv := hmongo.Connect()
	srv.Lag = true
	ctx := context.Background()
	now := nd.Time(nd.Int64("now", 0, 4000000000), 0)
	dtime.SetNowProvider(func() time.Time { return now })
	mk := func(id string) *message.Message {
		return &message.Message{ID: id, Queue: "q", QueuePrefix: "q", ExpiryDate: now.Add(time.Hour)}
	}
	_, _, err := st.Insert(ctx, mk("a"))
	nd.Assert(err == nil, "inserting works")
	if nd.Choose("sync", 2) == 1 {
		srv.Sync()
	}
	_, _, err = st.Insert(ctx, mk("b"))
	nd.Assert(err == nil, "inserting works")
	ids := []string{"a", "b"}
	r, err := st.Find(ctx, &storage.FindOptions{InternalFilter: &storage.InternalFilter{Queue: "q", Ids: &ids}, Retry: true})
	nd.Assert(err == nil && len(r) == 2, "a repeated read sees every message")
	// and updates do not depend on what the secondary has
	n, err := st.Ack(ctx, &message.Message{ID: "b", Queue: "q", LastUsage: &now})
	nd.Assert(err == nil && n == 1, "a message the secondary does not have is acknowledged")
	n, err = st.Remove(ctx, "q", "b", "a")
	nd.Assert(err == nil && n == 2, "messages the secondary does not have are removed")
}

// removal of any number of identifiers, with any failing step
func VH_P21_RemoveManyLarge() {
	st, srv := hmongo.Connect()
	ctx := context.Background()
	n := []int{0, 1, 99, 100, 101, 199, 200, 201, 301}[nd.Choose("n", 9)]
	at := 1 + nd.Choose("fail", 5) // the failing command, 5 means none
	how := 1 + nd.Choose("how", 2)
	ids := make([]string, n)
	in := map[string]bool{}
	for i := range ids {
		ids[i] = "m" + strconv.Itoa(i)
	}
	put := func(q, id string) {
		srv.Put(hmongo.Database, hmongo.Messages, hmongo.EncodeStruct(&message.Message{ID: id, Queue: q}).(*hmongo.Doc))
	}
	put("other", "m0")
	for _, i := range []int{0, 98, 99, 100, 150, 199, 200, 300} {
		id := "m" + strconv.Itoa(i)
		put("q", id)
		in[id] = i < n
	}
	put("q", "x")
	calls := 0
	srv.Fail = func(*mongo.VerifCommand) int {
		calls++
		if calls == at && at < 5 {
			return how
		}
		return 0
	}
	before := len(srv.Docs(hmongo.Database, hmongo.Messages))
	got, err := st.Remove(ctx, "q", ids...)
	srv.Fail = nil
	after := srv.Docs(hmongo.Database, hmongo.Messages)
	nd.Assert((err != nil) == (at < 5 && calls >= at), "a failed removal is reported")
	if err == nil {
		nd.Assert(int(got) == before-len(after), "removal reports each removed message once")
	} else {
		nd.Assert(int(got) <= before-len(after), "a failed removal reports no more than was removed")
	}
	left := map[string]bool{}
	for _, d := range after {
		q, _ := d.Get("queue")
		id, _ := d.Get("id")
		left[q.(string)+"/"+id.(string)] = true
	}
	nd.Assert(left["other/m0"] && left["q/x"], "only the named messages are removed")
	for id, gone := range in {
		nd.Assert(left["q/"+id] || gone, "only the named messages are removed")
		nd.Assert(err != nil || !gone || !left["q/"+id], "removal removes every named message")
	}
}

// what is asked for when there is nothing to do
func VH_P21_Nothing() {
	w := newMongo()
	w.tick()
	w.used("q::1", "a")
	ins, upd, err := w.s.Insert(w.ctx)
	nd.Assert(err == nil && ins == 0 && upd == 0, "adding no message works")
	n, err := w.s.Remove(w.ctx, "q::1")
	nd.Assert(err == nil && n == 0, "removing no message works")
	w.verify()
}

// a projection returns the fields that were asked for
func VH_P21_Projection() {
	w := newMongo()
	w.tick()
	d := w.used("q::1", "a")
	p := map[string]int{"id": 1}
	id, queue, used, exp := nd.Choose("_id", 3), nd.Choose("queue", 2), nd.Choose("used", 2), nd.Choose("exp", 2)
	if id < 2 {
		p["_id"] = id
	}
	if queue == 1 {
		p["queue"] = 1
	}
	if used == 1 {
		p["last_usage"] = 1
	}
	if exp == 1 {
		p["expiry_date"] = 1
	}
	r, err := w.s.Find(w.ctx, &storage.FindOptions{Projection: &p, InternalFilter: &storage.InternalFilter{Queue: "q::1"}, Sort: order("expiry_date", 1), Limit: 1})
	nd.Assert(err == nil && len(r) == 1 && r[0].ID == "a", "a projected read finds the message")
	nd.Assert(queue == 0 || r[0].Queue == "q::1", "a projected read has the fields asked for")
	nd.Assert(used == 0 || r[0].LastUsage != nil && r[0].LastUsage.Equal(d.usedT), "a projected read has the fields asked for")
	nd.Assert(exp == 0 || r[0].ExpiryDate.Equal(d.expT), "a projected read has the fields asked for")
	nd.Assert(id == 0 || w.s.GetStringInternalId(w.ctx, &r[0]) == mongoID(1), "a projected read has the internal identifier")
	nd.Assert(id != 0 || w.s.GetStringInternalId(w.ctx, &r[0]) == "", "a projected read has the fields asked for")
}

// a failing command is reported as a failure
func VH_P21_Failure() {
	w := newMongo()
	w.tick()
	w.used("q::1", "a")
	e := w.s.EditQueueConfiguration(w.ctx, &configuration.QueueConfiguration{Queue: "q::1", MaxElements: 3})
	nd.Assert(e == nil, "an edit works")
	m := &message.Message{ID: "a", Queue: "q::1", QueuePrefix: "q", LastUsage: &w.t, StringPayload: "x"}
	at, how, calls := 1+nd.Choose("at", 2), 1+nd.Choose("how", 2), 0
	w.srv.Fail = func(*mongo.VerifCommand) int {
		calls++
		if calls == at {
			return how
		}
		return 0
	}
	var err error
	var n int64
	single := true
	switch nd.Choose("op", 12) {
	case 0:
		_, _, err = w.s.Insert(w.ctx, m)
	case 1:
		n, err = w.s.Ack(w.ctx, m)
	case 2:
		n, err = w.s.Nack(w.ctx, m)
	case 3:
		n, err = w.s.Remove(w.ctx, "q::1", "a", "b")
	case 4:
		_, err = w.s.Find(w.ctx, &storage.FindOptions{Retry: nd.Choose("retry", 2) == 1})
	case 5:
		n, err = w.s.Count(w.ctx, &storage.FindOptions{}, &storage.CountOptions{})
	case 6:
		_, err = w.s.ListQueueNames(w.ctx)
	case 7:
		_, err = w.s.ListQueuePrefixes(w.ctx)
	case 8:
		err = w.s.EditQueueConfiguration(w.ctx, &configuration.QueueConfiguration{Queue: "q::1", MaxElements: 7})
	case 9:
		var c *configuration.QueueConfiguration
		c, err = w.s.GetQueueConfiguration(w.ctx, "q::1")
		nd.Assert((err != nil) != (c != nil), "a failed read of a configuration is not an absent configuration")
	case 10:
		_, err = w.s.ListQueueConfigurations(w.ctx)
	case 11:
		_, err = w.s.Flush(w.ctx)
		single = false
	}
	if single {
		nd.Assert(calls == 1, "one command per operation")
	}
	nd.Assert((err != nil) == (calls >= at), "a failing command is reported")
	nd.Assert(err == nil || n == 0, "a failed operation reports no change")
}

// a flush removes messages and configurations and counts both
func VH_P21_Flush() {
	w := newMongo()
	w.tick()
	n := nd.Choose("messages", 3)
	for i := 0; i < n; i++ {
		w.add("q::1", string(rune('a'+i)))
	}
	c := nd.Choose("configurations", 3)
	for i := 0; i < c; i++ {
		err := w.s.EditQueueConfiguration(w.ctx, &configuration.QueueConfiguration{Queue: qs[i], MaxElements: 3})
		nd.Assert(err == nil, "an edit works")
	}
	k, err := w.s.Flush(w.ctx)
	nd.Assert(err == nil && k == int64(n+c), "a flush reports what it removed")
	nd.Assert(w.srv.Collections() == 0, "a flush removes everything")
}

// the storage asks for its address, opens one client for each read preference and closes both
func VH_P21_Connection() {
	srv := hmongo.New()
	config.StorageConnectionRetryEnabled.Set(false)
	ctx := context.Background()
	config.StorageUri.Set("")
	_, err := storage.NewMongoStorage(ctx)
	nd.Assert(err != nil && srv.Connects == 0, "without an address nothing is connected to")
	config.StorageUri.Set("mongodb://db:27017/x")
	config.MongoDatabase.Set("d1")
	config.MongoCollection.Set("c1")
	config.MongoQueueConfigurationCollection.Set("k1")
	st, err := storage.NewMongoStorage(ctx)
	nd.Assert(err == nil && st != nil, "the storage connects")
	if err != nil {
		return
	}
	nd.Assert(len(srv.Open) == 2, "there are two clients")
	ins, _, err := st.Insert(ctx, &message.Message{ID: "a", Queue: "q", QueuePrefix: "q"})
	nd.Assert(err == nil && ins == 1 && len(srv.Docs("d1", "c1")) == 1, "messages are in the configured collection")
	err = st.EditQueueConfiguration(ctx, &configuration.QueueConfiguration{Queue: "q", MaxElements: 3})
	nd.Assert(err == nil && len(srv.Docs("d1", "k1")) == 1, "configurations are in the configured collection")
	r, err := st.Find(ctx, &storage.FindOptions{Retry: true})
	nd.Assert(err == nil && len(r) == 1, "both clients use the configured collection")
	fail := nd.Choose("fail", 3)
	calls := 0
	srv.Down = func() error {
		calls++
		if calls == fail {
			return hmongo.ErrServer
		}
		return nil
	}
	err = st.Close(ctx)
	nd.Assert(srv.Disconnects == 2 && len(srv.Open) == 0, "closing disconnects both clients")
	nd.Assert((err != nil) == (fail > 0), "a failing disconnect is reported")
}
