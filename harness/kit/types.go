package kit

// Str and Num are field types declared outside the model's package.
type (
	Str string
	Num uint32

	// Two is stored as JSON.
	Two[V any] struct{ A, B V }
)
