package urn_test

import (
	"strings"
	"testing"

	urn "github.com/leodido/go-urn"
)

func TestDemo(t *testing.T) {
	_, err := urn.NewMachine(urn.WithParsingMode(urn.RFC7643Only)).Parse([]byte("urn:ietf:params:scim:api:a:a%1"))
	if !strings.HasSuffix(err.Error(), "[col 29]") {
		t.Fatal(err)
	}
}
