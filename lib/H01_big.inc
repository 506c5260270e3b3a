static const bigcase bigs[] = {
	{"d8b39bc1c9dfa9431fcb61662c8d8ec4", "55834b22dc64ea8a8c5fb64926f568ca4e5a4b8d", 4294968073ull, false},
	{"65282a92e625218903f0d44a63231bb2", "13922db70c97ce12ea3ecfe541856f441e43f0bd", 536870912ull, false},
	{"b4920d16de83f871b869bec39a49cdd1", "c2d0df1c541cff0ad3d70f6ca742ab4c68d46bfb", 536871012ull, true},
	{"ad4b1c5c53559f8042725c6179c6a7ae", "29a5432f2ca7b92b83f91ad29eeafee55897deee", 1073741879ull, true},
};
