package main

import (
	"fmt"
	"path/filepath"
	"sort"
	"time"

	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-core/core/facade"
	"github.com/mashmb/1pass/1pass-core/core/service"
	"github.com/mashmb/1pass/1pass-parse/repo/file"
	"github.com/mashmb/1pass/1pass-parse/util/pbkdf2"
)

// session is a vault session wired exactly as the application wires it.
type session struct {
	f     facade.VaultFacade
	vault *domain.Vault
}

func newSession(e *Env, path string) *session {
	configRepo := file.NewFileConfigRepo(filepath.Join(e.CaseDir(), "cfg"))
	profileRepo := file.NewFileProfileRepo()
	itemRepo := file.NewFileItemRepo()
	keyService := service.NewDfltKeyService(pbkdf2.NewPbkdf2CryptoUtils(), profileRepo)
	itemService := service.NewDfltItemService(keyService, itemRepo)
	vaultService := service.NewDfltVaultService(itemRepo, profileRepo)
	configService := service.NewDfltConfigService(configRepo)
	return &session{facade.NewDfltVaultFacade(configService, itemService, keyService, vaultService), domain.NewVault(path)}
}

func catByCode(code string) *domain.ItemCategory {
	for _, c := range domain.ItemCategoryEnum.GetValues() {
		if c.GetCode() == code {
			return c
		}
	}
	return nil
}

// checkLockedOut demands that nothing is readable.
func (s *session) checkLockedOut(v *VaultSpec, when string) error {
	if s.f.IsUnlocked() {
		return violate("%s: the vault counts as unlocked", when)
	}
	for _, tr := range []bool{false, true} {
		if n := s.f.CountItems(nil, tr); n != 0 {
			return violate("%s: %d items are counted (trashed=%v)", when, n, tr)
		}
		if l := s.f.GetItems(nil, "", tr); len(l) != 0 {
			return violate("%s: %d items are listed (trashed=%v)", when, len(l), tr)
		}
		for i := range v.Items {
			if it := s.f.GetItem(v.Items[i].UID, tr); it != nil {
				return violate("%s: item %s can be read", when, v.Items[i].UID)
			}
			if c := catByCode(v.Items[i].Cat); c != nil {
				if n := s.f.CountItems(c, tr); n != 0 {
					return violate("%s: %d items of category %s are counted", when, n, c.GetName())
				}
			}
		}
	}
	return nil
}

// checkBasic compares ids, metadata and the overview texts of everything available with the model.
func (s *session) checkBasic(v *VaultSpec, when string) error {
	want := map[string]*ItemSpec{}
	for _, it := range v.knownItems() {
		want[it.UID] = it
	}
	for _, tr := range []bool{false, true} {
		n := 0
		for _, it := range want {
			if it.IsTrashed() == tr {
				n++
			}
		}
		if c := s.f.CountItems(nil, tr); c != n {
			return violate("%s: %d items are counted (trashed=%v), %d are stored", when, c, tr, n)
		}
		l := s.f.GetItems(nil, "", tr)
		if len(l) != n {
			return violate("%s: %d items are listed (trashed=%v), %d are stored", when, len(l), tr, n)
		}
		seen := map[string]bool{}
		for _, si := range l {
			it := want[si.Uid]
			if it == nil {
				return violate("%s: listed item %q is not stored", when, si.Uid)
			}
			if seen[si.Uid] {
				return violate("%s: item %s is listed twice", when, si.Uid)
			}
			seen[si.Uid] = true
			if si.Trashed != tr || it.IsTrashed() != tr {
				return violate("%s: item %s is listed with trashed=%v, stored %v", when, si.Uid, tr, it.IsTrashed())
			}
			if si.Category.GetCode() != it.Cat || si.Category.GetName() != Cats[it.Cat] {
				return violate("%s: item %s is listed as %s %s, stored %s", when, si.Uid, si.Category.GetCode(), si.Category.GetName(), it.Cat)
			}
			if si.Title != it.TitleStr() {
				return violate("%s: item %s is listed with title %q, stored %q", when, si.Uid, si.Title, it.TitleStr())
			}
		}
	}
	for i := range v.Items {
		it := &v.Items[i]
		for _, tr := range []bool{false, true} {
			g := s.f.GetItem(it.UID, tr)
			if !it.known() || it.IsTrashed() != tr {
				if g != nil {
					return violate("%s: item %s (category %q, trashed %v) is found with trashed=%v", when, it.UID, it.Cat, it.IsTrashed(), tr)
				}
				continue
			}
			if g == nil {
				return violate("%s: item %s is not found", when, it.UID)
			}
			if err := checkItemHead(g, it); err != nil {
				return violate("%s: %v", when, err)
			}
		}
	}
	return nil
}

func checkItemHead(g *domain.Item, it *ItemSpec) error {
	type cmp struct {
		what      string
		got, want any
	}
	for _, c := range []cmp{
		{"id", g.Uid, it.UID}, {"category", g.Category.GetCode() + " " + g.Category.GetName(), it.Cat + " " + Cats[it.Cat]},
		{"trashed flag", g.Trashed, it.IsTrashed()}, {"creation time", g.Created, it.Created}, {"modification time", g.Updated, it.Updated},
		{"title", g.Title, it.TitleStr()}, {"URL", g.Url, deref(it.URL)}, {"notes", g.Notes, deref(it.Notes)},
	} {
		if c.got != c.want {
			return fmt.Errorf("item %s: %s is %q, stored %q", it.UID, c.what, fmt.Sprint(c.got), fmt.Sprint(c.want))
		}
	}
	return nil
}

func shownSections(g *domain.Item) []vSection {
	var out []vSection
	for _, s := range g.Sections {
		var fs []vField
		for _, f := range s.Fields {
			fs = append(fs, vField{f.Name, f.Value})
		}
		if len(fs) > 0 {
			out = append(out, vSection{s.Title, fs})
		}
	}
	return out
}

func checkSections(g *domain.Item, it *ItemSpec, loc *time.Location) error {
	got, want := shownSections(g), it.sections(loc)
	flags := it.addrFlags()
	if len(got) != len(want) {
		return fmt.Errorf("item %s shows %d sections with fields, stored %d: %q vs %q", it.UID, len(got), len(want), got, want)
	}
	for i := range want {
		if got[i].Title != want[i].Title {
			return fmt.Errorf("item %s: section %d is titled %q, want %q", it.UID, i, got[i].Title, want[i].Title)
		}
		if len(got[i].Fields) != len(want[i].Fields) {
			return fmt.Errorf("item %s: section %d shows %d fields, stored %d: %q vs %q", it.UID, i, len(got[i].Fields), len(want[i].Fields), got[i].Fields, want[i].Fields)
		}
		for j := range want[i].Fields {
			a, b := got[i].Fields[j], want[i].Fields[j]
			if flags[i][j] {
				a.Value, b.Value = normAddr(a.Value), normAddr(b.Value)
			}
			if a != b {
				return fmt.Errorf("item %s: section %d field %d is %q, want %q", it.UID, i, j, a, b)
			}
		}
	}
	return nil
}

// checkQuery compares one search with the model.
func (s *session) checkQuery(v *VaultSpec, cat, title string, trashed bool) error {
	var c *domain.ItemCategory
	if cat != "" {
		c = catByCode(cat)
		if c == nil {
			return fmt.Errorf("category %s does not exist", cat)
		}
	}
	got := s.f.GetItems(c, title, trashed)
	want := v.query(cat, title, trashed)
	what := fmt.Sprintf("search (category %q, title %q, trashed %v)", cat, title, trashed)
	for i := 1; i < len(got); i++ {
		a, b := got[i-1], got[i]
		if a.Category.GetCode() > b.Category.GetCode() || (a.Category.GetCode() == b.Category.GetCode() && a.Title > b.Title) {
			return violate("%s: %q (%s) is listed before %q (%s)", what, a.Title, a.Category.GetCode(), b.Title, b.Category.GetCode())
		}
	}
	row := func(code, title, uid string, tr bool) string { return fmt.Sprintf("%s|%q|%s|%v", code, title, uid, tr) }
	var g, w []string
	for _, x := range got {
		g = append(g, row(x.Category.GetCode(), x.Title, x.Uid, x.Trashed))
	}
	for _, x := range want {
		w = append(w, row(x.Cat, x.TitleStr(), x.UID, x.IsTrashed()))
	}
	sort.Strings(g)
	sort.Strings(w)
	if fmt.Sprint(g) != fmt.Sprint(w) {
		return violate("%s: got %v, want %v", what, g, w)
	}
	if title == "" {
		if n := s.f.CountItems(c, trashed); n != len(want) {
			return violate("count (category %q, trashed %v) is %d, %d items match", cat, trashed, n, len(want))
		}
	}
	return nil
}
