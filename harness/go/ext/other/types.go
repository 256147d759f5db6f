// Package other has the custom types of the documents.
package other

// The custom types.
type (
	Count int64
	Ratio float64
	Flag  bool
	Text  string
)
