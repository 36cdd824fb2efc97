//go:build !race

package vsync

func Races() int { return 0 }

const RaceBuild = false
