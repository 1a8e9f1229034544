# prints the library's source list as its own makefile defines it (run in the repository root)
.DEFAULT_GOAL := list
-include build/general/Makefile.inc
.PHONY: list
list:
	@echo $(SOURCES)
