package main

import (
	"encoding/json"
)

func jstr(s string) string { b, _ := json.Marshal(s); return string(b) }

type J = map[string]any

func parseJ(s string) J {
	var j J
	if err := json.Unmarshal([]byte(s), &j); err != nil {
		panic(err)
	}
	return j
}

func dumpJ(j any) string { b, _ := json.MarshalIndent(j, "", "   "); return string(b) }

// putInv stores an inventory and its sidecar in directory dir ("" or "v1/").
func putInv(s Snap, dir string, j J) {
	alg, _ := j["digestAlgorithm"].(string)
	putInvRaw(s, dir, dumpJ(j), alg)
}

func putInvRaw(s Snap, dir, data, alg string) {
	s[dir+"inventory.json"] = data
	if refHash(alg) == nil {
		alg = "sha512"
	}
	s[dir+"inventory.json."+alg] = refDigest(alg, data) + " inventory.json"
}

func deepJ(x any) any { var y any; json.Unmarshal([]byte(dumpJ(x)), &y); return y }
