package vcrand

// The rest of package crypto/rand, unchanged.

import "crypto/rand"

var (
	Int = rand.Int
	Prime = rand.Prime
	Text = rand.Text
)
