from __future__ import annotations

from collections.abc import Hashable, Sequence
from dataclasses import dataclass, field
from typing import Callable, MutableMapping

from gaspra.changesets import (
    find_changeset,
    apply,
    strip_forward,
)
from gaspra.tokenizers import NullTokenizer, Tokenizer
from gaspra.serialize import deserialize_changeset, serialize_changeset
from gaspra.tree import Tree
from gaspra.memory_tree import MemoryTree


@dataclass
class VersionInfo:
    base_version: Hashable | None = None
    token_count: int = 0
    change_count: int = 0


@dataclass
class Versions:
    head_version: MutableMapping[Hashable, bytes] = field(default_factory=dict)
    diffs: MutableMapping[Hashable, bytes] = field(default_factory=dict)
    tree: Tree = field(default_factory=MemoryTree)

    # Encoder converts bytes to tokens (ints)
    tokenizer_factory: Callable[[], Tokenizer] = NullTokenizer

    def add(self, tag: Hashable, version: bytes, existing_head: Hashable | None = None):
        # Refuse before anything is changed.
        if tag in self.tree:
            raise KeyError(f"Version already exists: {tag!r}")
        path_to_base = () if existing_head is None else self.tree.path_to(existing_head)
        if existing_head is not None and not path_to_base:
            raise KeyError(f"Base version does not exist: {existing_head!r}")

        self.head_version[tag] = version
        self.tree.add(tag, existing_head)

        # A base that already has a successor is not a head any more.
        # The new version is a fork and becomes the head of its own line.
        if path_to_base and len(path_to_base) > 1:
            return

        # Find the best split best split among the descendants of existing_head.
        if existing_head is not None:
            split, path_to_split = self.tree.get_split(existing_head)
        else:
            split = existing_head = path_to_split = None

        # If there is an appropriate split, move it up to be a child of `tag`
        if split is not None and path_to_split is not None and split != existing_head:
            split_version = self._retrieve_using_path(path_to_split)
            # Keep a full copy until the split has its new parent, so that
            # it can be read at any time in between.
            self.head_version[split] = split_version
            self._add_edge(
                tag,
                split,
                self._make_changeset(version, split_version),
            )
            self.tree.change_parent(split, tag)

        # If there was a pre-existing head, make it a child of `tag`
        if existing_head is not None:
            existing_head_version = self.head_version[existing_head]
            self._add_edge(
                tag,
                existing_head,
                self._make_changeset(version, existing_head_version),
            )

        return

    def _make_changeset(self, original: bytes, modified: bytes):
        tokenizer = self.tokenizer_factory()
        encoded_original = tokenizer.encode(original)
        encoded_modified = tokenizer.encode(modified)

        encoded_changeset = tuple(
            strip_forward(
                find_changeset(encoded_original, encoded_modified).as_change_stream()
            )
        )

        changeset = tuple(
            c if type(c) is slice else tokenizer.decode(c) for c in encoded_changeset
        )
        return changeset

    def _add_edge(self, parent_tag, child_tag, changeset):
        self.diffs[child_tag] = serialize_changeset(changeset)

        # It's a spanning tree so a node can have only one
        # parent.  When adding an edge, the new parent
        # steals the child from any pre-existing parent.
        self.tree.change_parent(child_tag, parent_tag)

        # Older tag is no longer at the head of a branch
        # so remove it from versions.
        if child_tag in self.head_version:
            del self.head_version[child_tag]

    def _retrieve_using_path(self, path: Sequence[Hashable]) -> bytes:
        """
        Function to retrieve a version give its path.

        This is intended for internal use in this module.
        """
        # Initialize with root_version,
        # then apply all of the patches in the path.
        # Start from the last version in the path with a full copy.
        start = 0
        for index, tag in enumerate(path):
            if tag in self.head_version:
                start = index
        patched = self.head_version[path[start]]
        tokenizer = self.tokenizer_factory()
        encoded_patched = tokenizer.encode(patched)

        for tag in path[start + 1 :]:
            stripped_changeset = deserialize_changeset(self.diffs[tag])
            encoded_stripped_changeset = tuple(
                c if type(c) is slice else tokenizer.encode(c)
                for c in stripped_changeset
            )
            encoded_patched = apply(encoded_stripped_changeset, encoded_patched)
            # The pieces were encoded one by one, which may give other
            # tokens than encoding the whole, which is what the slices
            # of the next changeset count in.
            encoded_patched = tokenizer.encode(tokenizer.decode(encoded_patched))

        return tokenizer.decode(encoded_patched)

    def get(self, tag: Hashable) -> bytes | None:
        """
        Retrieve a specific version using its tag.
        """
        path = self.tree.path_to(tag)
        if path:
            return self._retrieve_using_path(path)
        else:
            return None

    def version_info(self, tag: Hashable) -> VersionInfo | None:
        """
        Return information about a version.
        """
        # A failed add() may have left data of a version it did not add.
        if tag not in self.tree:
            return None

        if (changeset := self.diffs.get(tag)) is not None:
            changeset = tuple(deserialize_changeset(changeset))
            token_count = sum(len(c) for c in changeset if not isinstance(c, slice))
            change_count = len(changeset)
        elif (head_version := self.head_version.get(tag)) is not None:
            token_count = len(head_version)
            change_count = 0
        else:
            return None

        return VersionInfo(
            base_version=self.tree.base_version(tag),
            token_count=token_count,
            change_count=change_count,
        )

    def __contains__(self, tag: Hashable):
        return tag in self.tree
