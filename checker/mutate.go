package main

func mutate(repo string, args []string) {}
