// Package evogen is filled in at check time, by an overlay, with adapters for
// code that the generator under test wrote.
package evogen
