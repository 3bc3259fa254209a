// Package data holds the calibrated property instances.
package data

import _ "embed"

// JSON is props.json.
//
//go:embed props.json
var JSON []byte

// Tags is tags.json.
//
//go:embed tags.json
var Tags []byte
