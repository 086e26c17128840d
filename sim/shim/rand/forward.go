// Code generated by zsim/gen; DO NOT EDIT.

package rand

import real "math/rand"

var New = real.New
var NewSource = real.NewSource
var NewZipf = real.NewZipf

type Rand = real.Rand
type Source = real.Source
type Source64 = real.Source64
type Zipf = real.Zipf
