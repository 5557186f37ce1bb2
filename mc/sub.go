package main

func subcommand(args []string) bool {
	switch args[0] {
	case "history":
		historyMain()
	case "limited":
		limitedMain(args[1:])
	case "sched":
		schedMain()
	case "schedcount":
		schedCountMain()
	default:
		return false
	}
	return true
}
