package world

import (
	"bytes"

	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/algorithms"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/zzverif/ktl"
	"github.com/Bren2010/katie/zzverif/nd"
)

type labelState struct {
	label, raw []byte
	terminal   uint64
}

// Store is what a client remembers.
type Store struct {
	State  []byte
	Labels []labelState
	Writes int
	Any    bool // whether any stale label may be next, not the first
}

func dup(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

func (s *Store) GetState() ([]byte, error) { return dup(s.State), nil }

func (s *Store) GetLabelState(label []byte) ([]byte, error) {
	for _, l := range s.Labels {
		if bytes.Equal(l.label, label) {
			return dup(l.raw), nil
		}
	}
	return nil, nil
}

func (s *Store) GetStaleLabel(cutoff uint64) ([]byte, []byte, error) {
	var stale []labelState
	for _, l := range s.Labels {
		if l.terminal <= cutoff {
			stale = append(stale, l)
		}
	}
	if len(stale) == 0 {
		return nil, nil, nil
	}
	i := 0
	if s.Any && len(stale) > 1 {
		i = nd.Choose("stale", len(stale))
	}
	return dup(stale[i].label), dup(stale[i].raw), nil
}

func (s *Store) PutState(raw []byte) error {
	s.State = dup(raw)
	s.Writes++
	return nil
}

func (s *Store) PutLabelState(raw, label, rawLabel []byte, terminal uint64) error {
	s.State = dup(raw)
	s.Writes++
	var out []labelState
	for _, l := range s.Labels {
		if !bytes.Equal(l.label, label) {
			out = append(out, l)
		}
	}
	if rawLabel != nil {
		out = append(out, labelState{dup(label), dup(rawLabel), terminal})
	}
	s.Labels = out
	return nil
}

// Client is a client of the log.
type Client struct {
	W *World
	S *Store
	C *transparency.Client
}

// NewClient returns a client without any state.
func (w *World) NewClient() *Client {
	s := &Store{}
	c, err := transparency.NewClient(w.Pub, s)
	nd.Assert(err == nil, "the client starts")
	return &Client{w, s, c}
}

// State is the client's view of the log, or nil.
func (c *Client) State() *structs.ClientState {
	if c.S.State == nil {
		return nil
	}
	buf := bytes.NewBuffer(c.S.State)
	st, err := structs.NewClientState(c.W.Pub, buf)
	nd.Assert(err == nil && buf.Len() == 0, "the client's state is decoded")
	return st
}

// LabelState is what the client remembers of the label.
func (c *Client) LabelState(label string) *structs.ClientLabelState {
	raw, _ := c.S.GetLabelState([]byte(label))
	if raw == nil {
		return &structs.ClientLabelState{}
	}
	buf := bytes.NewBuffer(raw)
	st, err := structs.NewClientLabelState(c.W.Suite, buf)
	nd.Assert(err == nil && buf.Len() == 0, "the client's label state is decoded")
	return st
}

// Current checks that the client has the log's current tree.
func (c *Client) Current() {
	st := c.State()
	nd.Assert(st != nil && st.TreeHead.TreeSize == c.W.N(), "the client's state advances to the log's tree")
	head := c.W.Tree.TreeHead()
	nd.Assert(nd.EqBytes(st.TreeHead.Signature, head.Signature), "the client keeps the log's signature")
}

// Greatest searches the greatest version of the label.
func (c *Client) Greatest(label string) {
	req, verify, err := c.C.GreatestVersionSearch([]byte(label))
	nd.Assert(err == nil, "a search is requested")
	res := c.W.Search(req)
	hist := c.W.Hist[label]
	err = verify(res)
	if len(hist) == 0 {
		nd.Assert(err != nil && c.notFound(err), "a label without versions is not found")
		return
	}
	nd.Log("greatest %v: %v", label, err)
	nd.Assert(err == nil, "the client accepts an honest response to a search for the greatest version")
	nd.Assert(res.Version != nil && int(*res.Version) == len(hist)-1, "the version is the greatest")
	nd.Assert(nd.EqBytes(res.Value.Value, hist[len(hist)-1].Value), "the value is the one stored for the greatest version")
	c.Current()
}

// Fixed searches a version of the label; it says whether it isn't expired.
func (c *Client) Fixed(label string, ver int) bool {
	req, verify, err := c.C.FixedVersionSearch([]byte(label), uint32(ver))
	nd.Assert(err == nil, "a search is requested")
	hist := c.W.Hist[label]
	res := c.W.Search(req)
	if res == nil {
		nd.Assert(c.W.Pub.MaximumLifetime > 0, "only a version of a log with a maximum lifetime expires")
		return false
	}
	err = verify(res)
	nd.Log("fixed %v %v: %v", label, ver, err)
	if ver >= len(hist) {
		nd.Assert(err != nil && c.notFound(err), "a version that does not exist is not found")
		return false
	}
	nd.Assert(err == nil, "the client accepts an honest response to a search for a version")
	nd.Assert(nd.EqBytes(res.Value.Value, hist[ver].Value), "the value is the one stored for the version")
	c.Current()
	return true
}

// notFound is whether the error says that the version does not exist. (If
// versions are signed by the service operator, the missing signature is
// noticed first.)
func (c *Client) notFound(err error) bool {
	return c.W.Config.Mode == structs.ThirdPartyManagement || err == algorithms.ErrLabelNotFound
}

// undistinguished is whether there is no distinguished entry in the client's view.
func (c *Client) undistinguished() bool {
	st := c.State()
	if st == nil {
		return true
	}
	n := st.TreeHead.TreeSize
	return nd.Not(ktl.NewTree(int(n)).Distinguished(c.W.Ts[:n], c.W.Pub.ReasonableMonitoringWindow)[ktl.NewTree(int(n)).Root])
}

// Monitor monitors one label that needs it, if any does.
func (c *Client) Monitor() bool {
	req, verify, err := c.C.Monitor()
	nd.Log("monitor %v", err)
	if err != nil {
		nd.Assert(c.undistinguished(), "monitoring is possible once there is a distinguished entry")
		return false
	}
	switch req := req.(type) {
	case *structs.ContactMonitorRequest:
		err = verify(c.W.ContactMonitor(req))
		nd.Log("contact %v %v", req, err)
		nd.Assert(err == nil, "the client accepts an honest response to contact monitoring")
	case *structs.OwnerMonitorRequest:
		err = verify(c.W.OwnerMonitor(req))
		nd.Log("owner %v %v", req, err)
		nd.Assert(err == nil, "the client accepts an honest response to owner monitoring")
	default:
		return false
	}
	c.Current()
	return true
}

// Own takes ownership of the label.
func (c *Client) Own(label string) bool {
	req, verify, err := c.C.OwnerInit([]byte(label))
	nd.Log("own %v", err)
	if err != nil {
		nd.Assert(nd.Or(c.LabelState(label).Owner != nil, c.undistinguished()), "a label can be owned once there is a distinguished entry")
		return false
	}
	res, err := c.W.Tree.OwnerInit(Ctx, Same(req, structs.NewOwnerInitRequest))
	nd.Log("server %v", err)
	if err != nil {
		nd.Assert(c.W.Pub.MaximumLifetime > 0, "the log answers a request to own a label, unless the entry has expired")
		return false
	}
	res = Same(res, func(b *bytes.Buffer) (*structs.OwnerInitResponse, error) {
		return structs.NewOwnerInitResponse(c.W.Pub, b)
	})
	err = verify(res)
	nd.Log("own verify %v", err)
	nd.Assert(err == nil, "the client accepts an honest response to taking ownership")
	c.Current()
	return true
}

// Update adds versions of an owned label through the log.
func (c *Client) Update(label string, count int) {
	w := c.W
	var values [][]byte
	for i := 0; i < count; i++ {
		values = append(values, nd.Bytes("value", 1))
	}
	req, sv, err := c.C.Update([]byte(label), values)
	nd.Assert(err == nil, "the owner can update the label")
	req = Same(req, structs.NewUpdateRequest)

	from := 0
	if req.GreatestVersion != nil {
		from = int(*req.GreatestVersion) + 1
	}
	before := 0 // responses before the one about the new versions
	for i := from; i < len(w.Hist[label]); i++ {
		if i == from || w.Hist[label][i].Pos != w.Hist[label][i-1].Pos {
			before++
		}
	}
	verified := make(chan bool, before+2)

	// the log's inserter; time doesn't pass before the earlier responses are verified
	reqs := make(chan transparency.UpdateRequest)
	t, err := transparency.NewTree(w.Config, w.Store, reqs)
	nd.Assert(err == nil, "the log is opened")
	go func() {
		r := <-reqs
		for i := 0; i < before; i++ {
			<-verified
		}
		var add []transparency.LabelValue
		for i, v := range r.Values {
			add = append(add, transparency.LabelValue{Label: r.Label, Value: w.Value(r.Label, len(w.Hist[label])+i, v.Value)})
		}
		pos := w.N()
		w.Mutate(add)
		w.Audit()
		w.Publish()
		r.Response <- pos
	}()
	ch, err := t.Update(Ctx, req)
	nd.Assert(err == nil, "the log accepts the update")
	got := from
	for r := range ch {
		nd.Log("update response %v", r.Err)
		nd.Assert(r.Err == nil, "the log answers an update")
		out := Same(r.Out, func(b *bytes.Buffer) (*structs.UpdateResponse, error) {
			return structs.NewUpdateResponse(w.Pub, b)
		})
		err := sv.Verify(out)
		nd.Log("update verify %v", err)
		nd.Assert(err == nil, "the owner accepts an honest response to an update")
		got += len(out.Info)
		c.Current()
		verified <- true
	}
	nd.Assert(got == len(w.Hist[label]), "the owner is told of every version")
	st := c.LabelState(label).Owner
	nd.Assert(st.VerAtStarting+len(st.UpcomingVers) == got-1, "the owner knows every version")
	for i, pos := range st.UpcomingVers {
		nd.Assert(pos == w.Hist[label][st.VerAtStarting+1+i].Pos, "the owner knows where every version was added")
	}
}

// Twin returns a client that remembers the same.
func (c *Client) Twin() *Client {
	d := c.W.NewClient()
	d.S.State = dup(c.S.State)
	d.S.Labels = append([]labelState{}, c.S.Labels...)
	return d
}
