from .changesets import diff_token_sequences
from .wrappers import find_lcs, find_substring
from .multiple_strings import find_lcs as find_lcs_multiple
from .merge import merge_token_sequence
