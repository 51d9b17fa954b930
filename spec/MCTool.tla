------------------------------- MODULE MCTool -------------------------------
EXTENDS Tool
MOpts == <<"out", "exclude", "mode", "exclude_packages", "log_dir", "log_level", "show_all_api", "show_unalign_api", "show_unsupport_api", "no_format", "log_markdown", "calculate_speed", "in">>
MProjects == {"single", "tvonly", "dir", "empty"}
=============================================================================
