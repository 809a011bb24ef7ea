package main

import (
	"bytes"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"strings"
)

// gurvyCopy copies the curve library into the scratch directory, with the assembly of the field of the repository
// replaced by the portable code (which the race detector can follow) and, when prime is given, with the field
// replaced by the field of that many elements.
func gurvyCopy(name, prime string) (string, error) {
	s, err := sh(filepath.Join(verif, "mc"), "go", append(append([]string{"list"}, modArgs()...), "-m", "-f", "{{.Dir}}", "github.com/consensys/gurvy")...)
	if err != nil {
		return "", fmt.Errorf("go list -m: %v %s", err, s)
	}
	src := strings.TrimSpace(s)
	dst := filepath.Join(scratch, "gurvy-"+name)
	err = filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if fi.IsDir() {
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		if strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
	})
	if err != nil {
		return "", err
	}
	fr := filepath.Join(dst, "bn256", "fr")
	b, err := os.ReadFile(filepath.Join(fr, "element_ops_noasm.go"))
	if err != nil {
		return "", err
	}
	i := bytes.Index(b, []byte("package "))
	if err := os.WriteFile(filepath.Join(fr, "element_ops_amd64.go"), b[i:], 0o644); err != nil {
		return "", err
	}
	if err := os.Remove(filepath.Join(fr, "element_ops_amd64.s")); err != nil {
		return "", err
	}
	if prime == "" {
		return dst, nil
	}
	return dst, smallField(filepath.Join(fr, "element.go"), prime)
}

// smallField rewrites the constants of the generated field code for a small prime: modulus, Montgomery constants and
// the one line that draws a random element.
func smallField(file, prime string) error {
	p, ok := new(big.Int).SetString(prime, 10)
	if !ok || !p.ProbablyPrime(20) || p.BitLen() > 32 {
		return fmt.Errorf("bad prime %q", prime)
	}
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	s := string(b)
	two64 := new(big.Int).Lsh(big.NewInt(1), 64)
	r := new(big.Int).Lsh(big.NewInt(1), 256)
	r.Mod(r, p)
	r2 := new(big.Int).Mul(r, r)
	r2.Mod(r2, p)
	inv := new(big.Int).ModInverse(p, two64)
	inv.Sub(two64, inv)
	zero := "0"
	for _, c := range []struct {
		old string
		new string
	}{
		{"z[3] %= 3486998266802970665", "z[0], z[1], z[2], z[3] = z[0]%" + prime + ", 0, 0, 0"},
		{"4891460686036598785", prime}, {"2896914383306846353", zero}, {"13281191951274694749", zero}, {"3486998266802970665", zero},
		{"14042775128853446655", inv.String()},
		{"1997599621687373223", r2.String()}, {"6052339484930628067", zero}, {"10108755138030829701", zero}, {"150537098327114917", zero},
		{"12436184717236109307", r.String()}, {"3962172157175319849", zero}, {"7381016538464732718", zero}, {"1011752739694698287", zero},
		{"\"21888242871839275222246405745257275088548364400416034343698204186575808495617\"", "\"" + prime + "\""},
	} {
		if !strings.Contains(s, c.old) {
			return fmt.Errorf("constant %s not found in the field code", c.old)
		}
		s = strings.ReplaceAll(s, c.old, c.new)
	}
	return os.WriteFile(file, []byte(s), 0o644)
}
