//go:build !asan

package main

const asanBuild = false
