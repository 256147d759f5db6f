// Package ext has the custom types of the documents.
package ext

// The custom types.
type (
	Count int64
	Ratio float64
	Flag  bool
	Text  string
)
