---------------------------- MODULE LocalIndexMC ----------------------------
EXTENDS LocalIndex
MCObjects == << << <<1, 3, 2>> >>, << <<2, 0, 1>>, <<1, 3, 2>> >> >>
=============================================================================
