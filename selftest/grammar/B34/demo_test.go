package urn_test

import (
	"testing"

	urn "github.com/leodido/go-urn"
)

func TestDemo(t *testing.T) {
	if _, ok := urn.Parse([]byte("urn:ietf:params:scim:api:a:~"), urn.WithParsingMode(urn.RFC7643Only)); ok {
		t.Fatal("accepted")
	}
}
