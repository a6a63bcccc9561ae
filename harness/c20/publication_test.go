package c20

import (
	"testing"
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait/publicationpb"
)

// content is what a version stands for.
type content struct{ id, body, mediaType, audience string }

func contentOf(p *traits.Publication) content {
	return content{p.Id, string(p.Body), p.MediaType, p.GetAudience().GetName()}
}

func genWord(t *rapid.T, label string) string {
	return vkit.Pick(t, []string{"", "a", "b", "ab", "aab", "aa", "\x00", "a\x00", "v1", "text/plain"}, label)
}

func genPublication(t *rapid.T, id string) *traits.Publication {
	p := &traits.Publication{Id: id, Body: []byte(genWord(t, "body")), MediaType: genWord(t, "media type")}
	if coin(t, "audience") {
		p.Audience = &traits.Publication_Audience{Name: genWord(t, "audience name")}
	}
	if one(t, 4, "output only fields") {
		p.Version = genWord(t, "version")
		p.PublishTime = timestamppb.New(time.Unix(5, 0))
		if p.Audience != nil {
			p.Audience.Receipt = traits.Publication_Audience_Receipt(rapid.IntRange(0, 3).Draw(t, "receipt"))
			p.Audience.ReceiptRejectedReason = genWord(t, "reason")
			p.Audience.ReceiptTime = timestamppb.New(time.Unix(6, 0))
		}
	}
	return p
}

// reslice moves bytes between the properties of a publication, the bytes all together stay the same.
func reslice(t *rapid.T, p *traits.Publication) *traits.Publication {
	p = vkit.Copy(p)
	all := string(p.Body) + p.MediaType + p.GetAudience().GetName()
	i := rapid.IntRange(0, len(all)).Draw(t, "body end")
	j := rapid.IntRange(i, len(all)).Draw(t, "media type end")
	p.Body, p.MediaType = []byte(all[:i]), all[i:j]
	p.Audience = nil
	if j < len(all) {
		p.Audience = &traits.Publication_Audience{Name: all[j:]}
	}
	return p
}

type versions struct {
	version map[content]string
	content map[[2]string]content // by id and version
}

// saw checks that the version of p stands for its content, and only that.
func (v *versions) saw(s *steps, p *traits.Publication) {
	c := contentOf(p)
	if p.Version == "" {
		s.failf("publication %s has no version", vkit.Text(p))
	}
	if old, ok := v.version[c]; ok && old != p.Version {
		s.failf("content %+v has versions %v and %v", c, old, p.Version)
	}
	k := [2]string{p.Id, p.Version}
	if old, ok := v.content[k]; ok && old != c {
		s.failf("version %v is both %+v and %+v", p.Version, old, c)
	}
	v.version[c] = p.Version
	v.content[k] = c
}

// TestPublication writes and acknowledges publications.
func TestPublication(t *testing.T) {
	var none *fieldmaskpb.FieldMask
	vkit.Check(t, vkit.N(40000, 300000), func(t *rapid.T) {
		s := &steps{t: t}
		c := newManual(1000)
		ref := map[string]*traits.Publication{}
		minted := map[string]bool{} // whether the version was computed
		vs := &versions{map[content]string{}, map[[2]string]content{}}
		opts := []resource.Option{resource.WithClock(c)}
		ids := []string{"a", "aa", "b"}
		for _, id := range ids {
			if one(t, 3, "initial") {
				ref[id] = genPublication(t, id)
				opts = append(opts, publicationpb.WithInitialPublication(vkit.Copy(ref[id])))
			}
		}
		var m *publicationpb.Model
		var srv *publicationpb.ModelServer
		s.step("NewModel(%d initial)", len(ref))
		s.do(func() { m = publicationpb.NewModel(opts...); srv = publicationpb.NewModelServer(m) })
		stale := []string{"none"}
		check := func() {
			var all *traits.ListPublicationsResponse
			var err error
			s.do(func() {
				all, err = srv.ListPublications(bg, &traits.ListPublicationsRequest{Name: "device", PageSize: 100})
			})
			s.ok(err)
			if len(all.Publications) != len(ref) {
				s.failf("%d publications, want %d", len(all.Publications), len(ref))
			}
			for _, p := range all.Publications {
				want := ref[p.Id]
				if want == nil {
					s.failf("unexpected publication %s", vkit.Text(p))
				}
				s.same("publication", p, want)
				if minted[p.Id] {
					vs.saw(s, p)
				}
			}
		}
		check()
		// computed adjusts want to having been written now
		computed := func(want, got *traits.Publication) {
			want.PublishTime = c.stamp()
			want.Version = got.GetVersion()
			if want.Audience != nil {
				want.Audience.Receipt = traits.Publication_Audience_NO_SIGNAL
				want.Audience.ReceiptTime = nil
				want.Audience.ReceiptRejectedReason = ""
			}
		}
		genVersion := func(id string) string {
			if p := ref[id]; p != nil && !one(t, 4, "stale version") {
				return p.Version
			}
			return vkit.Pick(t, stale, "stale version")
		}

		for i, n := 0, rapid.IntRange(1, 10).Draw(t, "ops"); i < n; i++ {
			if !one(t, 4, "same time") {
				c.tick(time.Second + 3)
			}
			id := vkit.Pick(t, ids, "id")
			for _, k := range keys(ref) {
				if v := ref[k].Version; v != "" {
					stale = append(stale, v)
				}
			}
			old := ref[id]
			switch op := rapid.IntRange(0, 11).Draw(t, "op"); op {
			case 0, 1:
				if one(t, 3, "generate id") {
					id, old = "", nil
				}
				p := genPublication(t, id)
				s.step("CreatePublication(%s)", vkit.Text(p))
				var got *traits.Publication
				var err error
				s.do(func() {
					got, err = srv.CreatePublication(bg, &traits.CreatePublicationRequest{Name: "device", Publication: vkit.Copy(p)})
				})
				if old != nil {
					s.code(err, codes.AlreadyExists)
					break
				}
				s.ok(err)
				if id == "" {
					id = got.GetId()
					if id == "" || ref[id] != nil {
						s.failf("generated id %q", id)
					}
					p.Id = id
				}
				computed(p, got)
				s.same("response", got, p)
				ref[id], minted[id] = p, true
				vkit.Class("create")
			case 2, 3, 4, 5:
				p := genPublication(t, id)
				if old != nil && one(t, 3, "reslice") {
					p = reslice(t, old)
				}
				um := mask(t, "update mask", "body", "media_type", "audience", "audience.name", "audience.receipt")
				req := &traits.UpdatePublicationRequest{Name: "device", Publication: p, UpdateMask: um}
				if one(t, 3, "with version") {
					req.Version = genVersion(id)
				}
				s.step("UpdatePublication(%s) of %s", vkit.Text(req), vkit.Text(old))
				var got *traits.Publication
				var err error
				s.do(func() { got, err = srv.UpdatePublication(bg, vkit.Copy(req)) })
				if old == nil {
					s.code(err, codes.NotFound)
					break
				}
				if req.Version != "" && req.Version != old.Version {
					s.code(err, codes.FailedPrecondition)
					vkit.Class("update of another version")
					break
				}
				s.ok(err)
				want := vkit.RefMerge(old, p, um, none, none, true).(*traits.Publication)
				computed(want, got)
				s.same("response", got, want)
				ref[id], minted[id] = want, true
				vkit.Nontrivial(s.at)
				vkit.Class("update")
			case 6, 7, 8:
				req := &traits.AcknowledgePublicationRequest{Name: "device", Id: id, Version: genVersion(id), AllowAcknowledged: coin(t, "allow")}
				req.Receipt = vkit.Pick(t, []traits.Publication_Audience_Receipt{0, traits.Publication_Audience_ACCEPTED, traits.Publication_Audience_REJECTED}, "receipt")
				if coin(t, "reason") {
					req.ReceiptRejectedReason = genWord(t, "reason")
				}
				s.step("AcknowledgePublication(%s) of %s", vkit.Text(req), vkit.Text(old))
				var got *traits.Publication
				var err error
				s.do(func() { got, err = srv.AcknowledgePublication(bg, vkit.Copy(req)) })
				if req.Version == "" {
					s.code(err, codes.InvalidArgument)
					break
				}
				if old == nil {
					s.code(err, codes.NotFound)
					break
				}
				if req.Version != old.Version {
					if c := status.Code(err); c != codes.Aborted && c != codes.FailedPrecondition {
						s.failf("error %v acknowledging another version", err)
					}
					vkit.Class("acknowledge another version")
					break
				}
				switch old.GetAudience().GetReceipt() {
				case traits.Publication_Audience_ACCEPTED, traits.Publication_Audience_REJECTED:
					if !req.AllowAcknowledged {
						s.code(err, codes.FailedPrecondition)
						vkit.Class("acknowledge twice")
						break
					}
					s.ok(err)
					s.same("response", got, old)
					vkit.Class("acknowledge twice, allowed")
				default:
					s.ok(err)
					want := vkit.Copy(old)
					if want.Audience == nil {
						want.Audience = &traits.Publication_Audience{}
					}
					want.Audience.Receipt = req.Receipt
					if req.Receipt == 0 {
						want.Audience.Receipt = traits.Publication_Audience_ACCEPTED
					}
					want.Audience.ReceiptRejectedReason = req.ReceiptRejectedReason
					if want.Audience.Receipt == traits.Publication_Audience_ACCEPTED && got.GetAudience().GetReceiptRejectedReason() == "" {
						want.Audience.ReceiptRejectedReason = "" // only a rejection needs a reason
					}
					want.Audience.ReceiptTime = c.stamp()
					s.same("response", got, want)
					ref[id] = want
					vkit.Nontrivial(s.at)
					vkit.Class("acknowledge")
				}
			case 9:
				req := &traits.DeletePublicationRequest{Name: "device", Id: id, AllowMissing: coin(t, "allow missing")}
				if coin(t, "with version") {
					req.Version = genVersion(id)
				}
				s.step("DeletePublication(%s)", vkit.Text(req))
				var err error
				s.do(func() { _, err = srv.DeletePublication(bg, vkit.Copy(req)) })
				switch {
				case old == nil && req.AllowMissing:
					s.ok(err)
				case old == nil:
					s.code(err, codes.NotFound)
				case req.Version != "" && req.Version != old.Version:
					s.code(err, codes.FailedPrecondition)
				default:
					s.ok(err)
					delete(ref, id)
					delete(minted, id)
				}
			case 10, 11:
				// by model, the properties to compute are chosen
				p := genPublication(t, id)
				um := mask(t, "update mask", "body", "media_type", "audience", "version")
				wopts := []resource.WriteOption{resource.WithUpdateMask(um)}
				which := rapid.IntRange(0, 7).Draw(t, "compute")
				if which&1 != 0 {
					wopts = append(wopts, publicationpb.WithNewVersion())
				}
				if which&2 != 0 {
					wopts = append(wopts, publicationpb.WithNewPublishTime())
				}
				if which&4 != 0 {
					wopts = append(wopts, publicationpb.WithResetReceipt())
				}
				s.step("model.UpdatePublication(%s, mask %v, version %v, publish time %v, reset receipt %v) of %s", vkit.Text(p), um.GetPaths(),
					which&1 != 0, which&2 != 0, which&4 != 0, vkit.Text(old))
				var got *traits.Publication
				var err error
				s.do(func() { got, err = m.UpdatePublication(id, vkit.Copy(p), wopts...) })
				if old == nil {
					s.code(err, codes.NotFound)
					break
				}
				s.ok(err)
				want := vkit.RefMerge(old, p, um, none, none, true).(*traits.Publication)
				all := vkit.Copy(want)
				computed(all, got)
				minted[id] = which&1 != 0
				if which&1 != 0 {
					want.Version = all.Version
				}
				if which&2 != 0 {
					want.PublishTime = all.PublishTime
				}
				if which&4 != 0 {
					want.Audience = all.Audience
				}
				s.same("response", got, want)
				ref[id] = want
				vkit.Class("model update")
			}
			check()
		}
	})
}
