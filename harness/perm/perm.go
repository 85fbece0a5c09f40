// Package perm judges requests by the permissions MOCO is shipped with.
package perm

import (
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"

	rbacv1 "k8s.io/api/rbac/v1"
	"k8s.io/apimachinery/pkg/api/meta"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"sigs.k8s.io/yaml"
)

// Rules are the permissions of one subject.
type Rules []rbacv1.PolicyRule

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// Shipped are the permissions of moco-controller by the file that grants them.
var Shipped = sync.OnceValue(func() map[string]Rules {
	r := map[string]Rules{}
	for _, f := range []string{"config/rbac/role.yaml", "charts/moco/templates/generated/generated.yaml"} {
		b, err := os.ReadFile(filepath.Join(repoDir(), f))
		if err != nil {
			continue
		}
		for _, d := range strings.Split("\n"+string(b), "\n---") {
			i := strings.Index(d, "\nrules:")
			if i < 0 || !strings.Contains(d, "kind: ClusterRole\n") || !strings.Contains(d[:i], "manager-role") || strings.Contains(d[i:], "{{") {
				continue
			}
			var x struct {
				Rules Rules `json:"rules"`
			}
			if err := yaml.Unmarshal([]byte(d[i:]), &x); err == nil && len(x.Rules) > 0 {
				r[f] = append(r[f], x.Rules...)
			}
		}
	}
	return r
})

// Allow tells whether the rules permit the verb on the resource ("res" or "res/sub").
func (r Rules) Allow(verb, group, res, name string) bool {
	for _, x := range r {
		if has(x.Verbs, verb) && has(x.APIGroups, group) && has(x.Resources, res) && (len(x.ResourceNames) == 0 || slices.Contains(x.ResourceNames, name)) {
			return true
		}
	}
	return false
}

func has(l []string, s string) bool { return slices.Contains(l, s) || slices.Contains(l, "*") }

// Resource is the resource of a kind.
func Resource(gvk schema.GroupVersionKind) string {
	gvk.Kind = strings.TrimSuffix(gvk.Kind, "List")
	p, _ := meta.UnsafeGuessKindToResource(gvk)
	return p.Resource
}

// Missing is what a request of the controller lacks: "" if both roles permit it.
// Objects are read through a cache (list and watch) or directly.
func Missing(verb string, gvk schema.GroupVersionKind, sub string) string {
	res := Resource(gvk)
	if sub != "" {
		res += "/" + sub
	}
	for f, r := range Shipped() {
		a := func(v string) bool { return r.Allow(v, gvk.Group, res, "") }
		ok := a(verb)
		switch verb {
		case "get":
			ok = ok || a("list") && a("watch")
		case "list":
			ok = ok && a("watch") || ok && sub != ""
		}
		if !ok {
			return verb + " of " + res + " (" + gvk.Group + ") by " + f
		}
	}
	return ""
}

// Grant is what the controller lacks to grant the rules: nobody can give what he has not.
func Grant(rules []rbacv1.PolicyRule) string {
	for f, r := range Shipped() {
		for _, x := range rules {
			for _, v := range x.Verbs {
				for _, g := range x.APIGroups {
					for _, res := range x.Resources {
						if !r.Allow(v, g, res, "") && !r.Allow("escalate", "rbac.authorization.k8s.io", "roles", "") {
							return v + " of " + res + " (" + g + ") by " + f
						}
					}
				}
			}
		}
	}
	return ""
}
