package main

// Per property, what its check takes for granted (copied into the evidence file).
var assumptions = map[string][]string{}
