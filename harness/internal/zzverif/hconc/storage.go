package hconc

import (
	"sort"
	"strings"
	"time"

	"github.com/elliotchance/orderedmap/v2"
	"github.com/takenet/deckard/internal/queue/configuration"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/zzverif/nd"
)

func msg(q, id, payload string) *message.Message {
	return &message.Message{ID: id, Queue: q, QueuePrefix: q, StringPayload: payload, Metadata: map[string]string{"m": payload}, Score: 1, Timeless: true}
}

// kept makes a storage that has message a of queue q, acknowledged once or never, or nothing.
func kept(st int, payload string, max int64) func() storage.Storage {
	return func() storage.Storage {
		at(then)
		s := storage.NewMemoryStorage(bg)
		if st > 0 {
			_, _, err := s.Insert(bg, msg("q", "a", payload))
			nd.Assert(err == nil, "setup: insert")
			nd.Assert(s.EditQueueConfiguration(bg, &configuration.QueueConfiguration{Queue: "q", MaxElements: max}) == nil, "setup: edit")
		}
		if st > 1 {
			t := time.UnixMilli(5)
			_, err := s.Ack(bg, &message.Message{ID: "a", Queue: "q", Score: 2, LastUsage: &t})
			nd.Assert(err == nil, "setup: ack")
		}
		at(now)
		return s
	}
}

func (o *outcome) counter(p *int64) {
	if p == nil {
		o.say("-")
	} else {
		o.int(*p)
	}
}

func (o *outcome) messages(l []message.Message, err error) {
	for i := range l {
		m := &l[i]
		o.say(m.ID, m.Queue)
		o.str(m.StringPayload)
		o.str(m.Metadata["m"])
		o.str(m.Breakpoint)
		o.float(m.Score)
		o.float(m.LastScoreSubtract)
		o.float(m.TotalScoreSubtract)
		o.int(m.UsageCount)
		o.int(m.LockMs)
		if m.LastUsage != nil {
			o.int(m.LastUsage.UnixMilli())
		}
		if d := m.Diagnostics; d != nil {
			o.counter(d.Acks)
			o.counter(d.Nacks)
			o.counter(d.ConsecutiveAcks)
			o.counter(d.ConsecutiveNacks)
		}
	}
	o.fail(err)
}

func (o *outcome) config(c *configuration.QueueConfiguration, err error) {
	if c != nil {
		o.say(c.Queue)
		o.int(c.MaxElements)
	}
	o.fail(err)
}

func byID() *orderedmap.OrderedMap[string, int] {
	m := orderedmap.NewOrderedMap[string, int]()
	m.Set("_id", 1)
	return m
}

func everything(s storage.Storage, o *outcome) {
	o.messages(s.Find(bg, &storage.FindOptions{InternalFilter: &storage.InternalFilter{}, Sort: byID()}))
	o.config(s.GetQueueConfiguration(bg, "q"))
	// nothing is left locked
	_, _, err := s.Insert(bg, msg("z", "z", "z"))
	o.fail(err)
}

func storageOp(tag string, from int) (call[storage.Storage], int) {
	op := from + nd.Choose("op"+tag, 13-from)
	return storageCall(op, tag), op
}

func storageCall(op int, tag string) call[storage.Storage] {
	v := nd.Bytes("payload"+tag, 1)
	f := nd.Float64("score" + tag)
	lock := nd.Int64("lock"+tag, 0, 1<<62)
	id := func() string { return []string{"a", "b"}[nd.Choose("id"+tag, 2)] }
	switch op {
	case 0:
		x := id()
		return one(func(s storage.Storage, o *outcome) {
			m := msg("q", x, v)
			m.Score = f
			i, u, err := s.Insert(bg, m)
			o.int(i)
			o.int(u)
			o.fail(err)
			// the caller goes on using its message
			o.float(m.Score)
			o.int(m.LockMs)
			o.str(m.StringPayload)
		})
	case 1:
		add := func(ids ...string) func(s storage.Storage, o *outcome) {
			return func(s storage.Storage, o *outcome) {
				var l []*message.Message
				for _, x := range ids {
					l = append(l, msg("q", x, v))
				}
				i, u, err := s.Insert(bg, l...)
				o.int(i + u)
				o.fail(err)
			}
		}
		return call[storage.Storage]{
			run:   add("a", "b"),
			parts: []func(s storage.Storage, o *outcome){add("a"), add("b")},
			join: func(l []*outcome) *outcome {
				l[0].ints[0] += l[1].ints[0]
				return l[0]
			},
		}
	case 2:
		x := id()
		return one(func(s storage.Storage, o *outcome) {
			t := time.UnixMilli(7)
			n, err := s.Ack(bg, &message.Message{ID: x, Queue: "q", Score: f, LastScoreSubtract: 4, LastUsage: &t, Breakpoint: v, LockMs: lock})
			o.int(n)
			o.fail(err)
		})
	case 3:
		x := id()
		return one(func(s storage.Storage, o *outcome) {
			n, err := s.Nack(bg, &message.Message{ID: x, Queue: "q", Score: f, LockMs: lock})
			o.int(n)
			o.fail(err)
		})
	case 4:
		bp := []string{"", "0", "bad"}[nd.Choose("bp"+tag, 3)]
		return one(func(s storage.Storage, o *outcome) {
			o.messages(s.Find(bg, &storage.FindOptions{InternalFilter: &storage.InternalFilter{Queue: "q", InternalIdBreakpointGt: bp}, Sort: byID()}))
		})
	case 5:
		bp := []string{"", "bad"}[nd.Choose("bp"+tag, 2)]
		return one(func(s storage.Storage, o *outcome) {
			n, err := s.Count(bg, &storage.FindOptions{InternalFilter: &storage.InternalFilter{Queue: "q", InternalIdBreakpointGt: bp}}, nil)
			o.int(n)
			o.fail(err)
		})
	case 6:
		x := id()
		return one(func(s storage.Storage, o *outcome) {
			n, err := s.Remove(bg, "q", x, "a")
			o.int(n)
			o.fail(err)
		})
	case 7:
		return one(func(s storage.Storage, o *outcome) {
			n, err := s.Flush(bg)
			o.int(n)
			o.fail(err)
		})
	case 8:
		return one(func(s storage.Storage, o *outcome) { o.set(s.ListQueueNames(bg)) })
	case 9:
		return one(func(s storage.Storage, o *outcome) { o.set(s.ListQueuePrefixes(bg)) })
	case 10:
		n := nd.Int64("max"+tag, -5, 1<<62)
		return one(func(s storage.Storage, o *outcome) {
			o.fail(s.EditQueueConfiguration(bg, &configuration.QueueConfiguration{Queue: "q", MaxElements: n}))
		})
	case 11:
		return one(func(s storage.Storage, o *outcome) {
			l, err := s.ListQueueConfigurations(bg)
			sort.Slice(l, func(i, j int) bool { return strings.Compare(l[i].Queue, l[j].Queue) < 0 })
			for _, c := range l {
				o.config(c, nil)
			}
			o.fail(err)
		})
	}
	return one(func(s storage.Storage, o *outcome) { o.config(s.GetQueueConfiguration(bg, "q")) })
}

func storageTogether(n, k int) {
	st := nd.Choose("state", 3)
	var calls []call[storage.Storage]
	last := 0
	for i := 0; i < n; i++ { // the order of the calls does not matter
		c, op := storageOp(string(rune('0'+i)), last)
		calls, last = append(calls, c), op
	}
	together(calls, kept(st, nd.Bytes("payload", 1), nd.Int64("max", 1, 1<<62)), everything, k)
}

// two operations of the in-memory storage at the same time
func VH_P18_Storage() { storageTogether(2, depth()) }
