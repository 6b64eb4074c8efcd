From 7ce1e9941f2c624445a36d788dc0eeba3bbe30ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:37 +0000
Subject: [PATCH 01/73] fix: resolve extension operations of every node

resolve_extension_defs iterated up to graph.node_capacity(), which does not
bound node indices when links share ports; later nodes stayed opaque.
---
 hugr-core/src/hugr.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/hugr-core/src/hugr.rs b/hugr-core/src/hugr.rs
index d5d62c6..ddc39e3 100644
--- a/hugr-core/src/hugr.rs
+++ b/hugr-core/src/hugr.rs
@@ -285,17 +285,12 @@ impl Hugr {
         // This is not something we want to expose it the API, so we manually
         // iterate instead of writing it as a method.
         //
-        // Since we don't have a non-borrowing iterator over all the possible
-        // NodeIds, we have to simulate it by iterating over all possible
-        // indices and checking if the node exists.
+        // Note that the capacity of the graph is not an upper bound for the
+        // node indices, as it does not count the internal nodes used for
+        // multiple links to the same port.
         let weak_extensions: WeakExtensionRegistry = extensions.into();
-        for n in 0..self.graph.node_capacity() {
-            let pg_node = portgraph::NodeIndex::new(n);
+        for pg_node in self.graph.nodes_iter() {
             let node: Node = pg_node.into();
-            if !self.contains_node(node) {
-                continue;
-            }
-
             let op = &mut self.op_types[pg_node];
 
             if let Some(extension) = resolve_op_extensions(node, op, extensions)? {
-- 
2.43.0


From a185992777f8faf1d9bcfbc1e250b47d833d6904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:34 +0000
Subject: [PATCH 02/73] fix: text model grammar accepts what the printer emits

Numbered variables, function literals, and symbols whose name starts with
'public' or 'private' were printed but could not be parsed back.
---
 hugr-model/src/v0/ast/hugr.pest | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hugr-model/src/v0/ast/hugr.pest b/hugr-model/src/v0/ast/hugr.pest
index d960cb3..7196dc7 100644
--- a/hugr-model/src/v0/ast/hugr.pest
+++ b/hugr-model/src/v0/ast/hugr.pest
@@ -4,6 +4,7 @@ identifier         = @{ identifier_initial ~ identifier_rest* }
 identifier_initial = @{ ASCII_ALPHA | "_" | "-" }
 identifier_rest    = @{ ASCII_ALPHANUMERIC | "_" | "-" }
 symbol_name        = @{ !(reserved ~ !(identifier_rest | ".")) ~ (identifier ~ ("." ~ identifier)*) }
+var_name           = @{ identifier_rest+ }
 link_name          = @{ "%" ~ (ASCII_ALPHANUMERIC | "_" | "-")* }
 
 literal = { literal_string | literal_float | literal_nat | literal_bytes }
@@ -81,7 +82,7 @@ node_cond              = { "(" ~ "cond" ~ port_lists? ~ signature? ~ meta* ~ reg
 node_import            = { "(" ~ "import" ~ symbol_name ~ meta* ~ ")" }
 node_custom            = { "(" ~ term ~ port_lists? ~ signature? ~ meta* ~ region* ~ ")" }
 
-visibility = { "public" | "private" }
+visibility = @{ ("public" | "private") ~ !(identifier_rest | ".") }
 
 symbol = { visibility? ~ symbol_name ~ param* ~ where_clause* ~ term }
 
@@ -103,11 +104,11 @@ term = {
 }
 
 term_wildcard   = @{ "_" ~ !(ASCII_ALPHANUMERIC | "_" | "-") }
-term_var        =  { "?" ~ identifier }
+term_var        =  { "?" ~ var_name }
 term_apply      =  { symbol_name | ("(" ~ symbol_name ~ term* ~ ")") }
 term_list       =  { "[" ~ part* ~ "]" }
 term_tuple      =  { "(" ~ "tuple" ~ part* ~ ")" }
-term_const_func =  { "(" ~ "fn" ~ term ~ ")" }
+term_const_func =  { "(" ~ "fn" ~ region ~ ")" }
 
 part         = { spliced_term | term }
 spliced_term = { term ~ "..." }
-- 
2.43.0


From 885c1530ac92a2fbfee2b8b6cc3202b2d15b4994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:34 +0000
Subject: [PATCH 03/73] fix: report errors finishing a compressed envelope

The zstd frame was finished by a destructor and the writer never flushed, so
a failed write of the last bytes was lost and the save reported as done.
---
 hugr-core/src/envelope/writer.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/hugr-core/src/envelope/writer.rs b/hugr-core/src/envelope/writer.rs
index 9754741..f70b0d9 100644
--- a/hugr-core/src/envelope/writer.rs
+++ b/hugr-core/src/envelope/writer.rs
@@ -29,14 +29,20 @@ pub(super) fn write_envelope<'h>(
     match config.zstd {
         #[cfg(feature = "zstd")]
         Some(zstd) => {
-            let writer = zstd::Encoder::new(writer, zstd.level())?.auto_finish();
-            write_impl(writer, hugrs, extensions, config)?;
+            let mut encoder = zstd::Encoder::new(&mut writer, zstd.level())?;
+            write_impl(&mut encoder, hugrs, extensions, config)?;
+            // Finish the frame explicitly, so that an error writing its last
+            // bytes is reported rather than dropped.
+            encoder.finish()?;
         }
         #[cfg(not(feature = "zstd"))]
         Some(_) => return Err(WriteErrorInner::ZstdUnsupported.into()),
-        None => write_impl(writer, hugrs, extensions, config)?,
+        None => write_impl(&mut writer, hugrs, extensions, config)?,
     }
 
+    // The writer may be buffered: report its errors here instead of leaving
+    // them to its destructor.
+    writer.flush()?;
     Ok(())
 }
 
-- 
2.43.0


From fd472877f1d9553036f923c6da9eb8055698b13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 04/73] fix: hugr convert --compress without a level compresses

The help says the default level is used; the flag was ignored.
---
 hugr-cli/src/convert.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hugr-cli/src/convert.rs b/hugr-cli/src/convert.rs
index 6a9aa18..77420c6 100644
--- a/hugr-cli/src/convert.rs
+++ b/hugr-cli/src/convert.rs
@@ -85,8 +85,12 @@ impl ConvertArgs {
         };
 
         // Configure compression
-        if let Some(level) = self.compress.then_some(self.compression_level).flatten() {
-            config = config.with_zstd(ZstdConfig::new(level));
+        if self.compress {
+            let zstd = match self.compression_level {
+                Some(level) => ZstdConfig::new(level),
+                None => ZstdConfig::default_level(),
+            };
+            config = config.with_zstd(zstd);
         }
 
         // Write the package with the requested format
-- 
2.43.0


From bef9340ce48ec27e5fbde6803b8c2f669ca2b75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 05/73] fix: hugr describe reports failing to write the end of
 its output

---
 hugr-cli/src/describe.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hugr-cli/src/describe.rs b/hugr-cli/src/describe.rs
index 2ccf3c3..0b7c752 100644
--- a/hugr-cli/src/describe.rs
+++ b/hugr-cli/src/describe.rs
@@ -128,6 +128,8 @@ impl DescribeArgs {
         } else {
             print_description(desc, self.packaged_extensions, writer)?;
         }
+        // The output may be buffered: report errors writing its last part.
+        writer.flush()?;
 
         // bubble up any errors
         res.map(|_| ())
-- 
2.43.0


From 25488dc089ae6a6769145de286b1361ded9bd098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:55 +0000
Subject: [PATCH 06/73] fix: print floats in scientific notation so that they
 parse back

A float such as 1e300 was printed without a decimal point and read back as
the natural number 1 applied to something else.
---
 hugr-model/src/v0/ast/print.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hugr-model/src/v0/ast/print.rs b/hugr-model/src/v0/ast/print.rs
index 071146d..0de279e 100644
--- a/hugr-model/src/v0/ast/print.rs
+++ b/hugr-model/src/v0/ast/print.rs
@@ -169,8 +169,13 @@ fn print_literal<'a>(printer: &mut Printer<'a>, literal: &'a Literal) {
             printer.parens_exit();
         }
         Literal::Float(float) => {
-            // The debug representation of a float always includes a decimal point.
-            printer.text(format!("{:.?}", float.into_inner()));
+            // The debug representation of a float includes a decimal point,
+            // except when it uses scientific notation.
+            let mut text = format!("{:.?}", float.into_inner());
+            if let (None, Some(exponent)) = (text.find('.'), text.find('e')) {
+                text.insert_str(exponent, ".0");
+            }
+            printer.text(text);
         }
     }
 }
-- 
2.43.0


From 40bc429964d788199e73a5d6db7dba9bd46f882e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 07/73] fix: resolve extensions bundled in a text model
 envelope

Unlike in the JSON and binary formats, references between the bundled
extensions were left dangling.
---
 hugr-core/src/envelope/reader.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/envelope/reader.rs b/hugr-core/src/envelope/reader.rs
index 803b5b6..b6c3cf2 100644
--- a/hugr-core/src/envelope/reader.rs
+++ b/hugr-core/src/envelope/reader.rs
@@ -222,7 +222,13 @@ impl<R: BufRead> EnvelopeReader<R> {
                 .into_iter::<Vec<Extension>>()
                 .next()
                 .unwrap_or(Ok(vec![]))?;
-            ExtensionRegistry::new(extra_extensions.into_iter().map(std::sync::Arc::new))
+            // After deserialization, we need to update all the internal
+            // `Weak<Extension>` references.
+            ExtensionRegistry::new_with_extension_resolution(
+                extra_extensions,
+                &WeakExtensionRegistry::from(&self.registry),
+            )
+            .map_err(crate::extension::ExtensionRegistryLoadError::from)?
         } else {
             ExtensionRegistry::new([])
         };
-- 
2.43.0


From 657d431d6bf6d29da34079377564e4d649486fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 08/73] fix: retry interrupted reads when loading a binary
 model

Loading from a source whose reads can be interrupted failed in the binary
format, unlike in all others.
---
 hugr-model/src/v0/binary/read.rs | 39 +++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/hugr-model/src/v0/binary/read.rs b/hugr-model/src/v0/binary/read.rs
index ae44ebb..272c8b8 100644
--- a/hugr-model/src/v0/binary/read.rs
+++ b/hugr-model/src/v0/binary/read.rs
@@ -3,7 +3,7 @@ use crate::v0::table;
 use crate::{CURRENT_VERSION, v0 as model};
 use bumpalo::Bump;
 use bumpalo::collections::Vec as BumpVec;
-use std::io::{BufRead, BufReader, Read};
+use std::io::{self, BufRead, BufReader, Read};
 
 /// An error encountered while deserialising a model.
 #[derive(Debug, derive_more::From, derive_more::Display, derive_more::Error)]
@@ -50,12 +50,45 @@ pub fn read_from_slice_with_suffix<'a>(
 
 /// Read a hugr package from an impl of [`BufRead`].
 pub fn read_from_reader(reader: impl BufRead, bump: &Bump) -> ReadResult<table::Package<'_>> {
-    let reader =
-        capnp::serialize_packed::read_message(reader, capnp::message::ReaderOptions::new())?;
+    let reader = capnp::serialize_packed::read_message(
+        RetryInterrupted(reader),
+        capnp::message::ReaderOptions::new(),
+    )?;
     let root = reader.get_root::<hugr_capnp::package::Reader>()?;
     read_package(bump, root)
 }
 
+/// A reader that retries interrupted reads.
+///
+/// `capnp` reads packed messages with [`BufRead::fill_buf`], treating an
+/// [`io::ErrorKind::Interrupted`] as fatal.
+struct RetryInterrupted<R>(R);
+
+impl<R: Read> Read for RetryInterrupted<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        self.0.read(buf)
+    }
+}
+
+impl<R: BufRead> BufRead for RetryInterrupted<R> {
+    fn fill_buf(&mut self) -> io::Result<&[u8]> {
+        loop {
+            match self.0.fill_buf() {
+                Ok([]) => return Ok(&[]),
+                Ok(_) => break,
+                Err(err) if err.kind() == io::ErrorKind::Interrupted => {}
+                Err(err) => return Err(err),
+            }
+        }
+        // The buffer is not empty, so this does not read again.
+        self.0.fill_buf()
+    }
+
+    fn consume(&mut self, amt: usize) {
+        self.0.consume(amt);
+    }
+}
+
 /// Read a list of structs from a reader into a slice allocated through the bump allocator.
 macro_rules! read_list {
     ($bump:expr, $reader:expr, $read:expr) => {{
-- 
2.43.0


From 7b47a4166f991367c3b7b311d6d5a7c0216310c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 09/73] fix: storing a compressed envelope to a string is an
 error

A compressed envelope is not valid utf8, and storing it panicked.
---
 hugr-core/src/hugr.rs    | 2 +-
 hugr-core/src/package.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hugr-core/src/hugr.rs b/hugr-core/src/hugr.rs
index ddc39e3..d1f8206 100644
--- a/hugr-core/src/hugr.rs
+++ b/hugr-core/src/hugr.rs
@@ -236,7 +236,7 @@ impl Hugr {
         config: EnvelopeConfig,
         extensions: &ExtensionRegistry,
     ) -> Result<String, WriteError> {
-        if !config.format.ascii_printable() {
+        if !config.format.ascii_printable() || config.zstd.is_some() {
             return Err(WriteError::non_ascii_format(config.format));
         }
 
diff --git a/hugr-core/src/package.rs b/hugr-core/src/package.rs
index 19e5f41..385c856 100644
--- a/hugr-core/src/package.rs
+++ b/hugr-core/src/package.rs
@@ -108,7 +108,7 @@ impl Package {
     /// [`Package::extensions`]. Any other extension used in the definition must
     /// be passed to [`Package::load_str`] to load back the package.
     pub fn store_str(&self, config: EnvelopeConfig) -> Result<String, WriteError> {
-        if !config.format.ascii_printable() {
+        if !config.format.ascii_printable() || config.zstd.is_some() {
             return Err(WriteError::non_ascii_format(config.format));
         }
 
-- 
2.43.0


From 8fade8547fcd13633e1b41b2e783b711ec695257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 10/73] fix: reject invalid indices when loading the JSON
 format

---
 hugr-core/src/core.rs           |  9 ++++
 hugr-core/src/hugr/serialize.rs | 82 ++++++++++++++++++++++++++++-----
 2 files changed, 80 insertions(+), 11 deletions(-)

diff --git a/hugr-core/src/core.rs b/hugr-core/src/core.rs
index 4578aa5..8c7a9ff 100644
--- a/hugr-core/src/core.rs
+++ b/hugr-core/src/core.rs
@@ -15,9 +15,18 @@ use crate::{HugrView, hugr::HugrError};
 )]
 #[serde(transparent)]
 pub struct Node {
+    #[serde(deserialize_with = "deserialize_node_index")]
     index: portgraph::NodeIndex,
 }
 
+/// Deserialize a node index, rejecting the values it cannot represent.
+fn deserialize_node_index<'de, D: serde::Deserializer<'de>>(
+    deserializer: D,
+) -> Result<portgraph::NodeIndex, D::Error> {
+    let index: usize = serde::Deserialize::deserialize(deserializer)?;
+    index.try_into().map_err(serde::de::Error::custom)
+}
+
 /// A handle to a port for a node in the HUGR.
 #[derive(
     Clone,
diff --git a/hugr-core/src/hugr/serialize.rs b/hugr-core/src/hugr/serialize.rs
index 5ddc9e3..3d37c20 100644
--- a/hugr-core/src/hugr/serialize.rs
+++ b/hugr-core/src/hugr/serialize.rs
@@ -134,6 +134,37 @@ pub enum HUGRSerializationError {
         /// The node that has the port without offset.
         node: Node,
     },
+    /// A node index outside the encoded node list.
+    #[error("The index {node} is not a node in the graph.")]
+    UnknownNode {
+        /// The unknown node.
+        node: Node,
+    },
+    /// The node list is empty.
+    #[error("The node list is empty.")]
+    NoNodes,
+    /// Edges with a port offset that the operation does not have.
+    #[error("Node {node} with operation type {op_type} has no {dir:?} port with offset {offset}.")]
+    InvalidPortOffset {
+        /// The node that does not have the port.
+        node: Node,
+        /// The direction of the port.
+        dir: Direction,
+        /// The invalid port offset.
+        offset: usize,
+        /// The operation type of the node.
+        op_type: OpType,
+    },
+    /// A tag operation for a variant that does not exist.
+    #[error("The operation at node {node} has tag {tag} but the sum has {num_variants} variants.")]
+    InvalidTag {
+        /// The node with the operation.
+        node: Node,
+        /// The invalid tag.
+        tag: usize,
+        /// The number of variants in the sum type.
+        num_variants: usize,
+    },
     /// First node in node list must be the HUGR root.
     #[error("The first node in the node list has parent {0}, should be itself (index 0)")]
     FirstNodeNotRoot(Node),
@@ -260,13 +291,27 @@ impl TryFrom<SerHugrLatest> for Hugr {
             entrypoint,
         }: SerHugrLatest,
     ) -> Result<Self, Self::Error> {
+        let num_nodes = nodes.len();
+        for (idx, node_ser) in nodes.iter().enumerate() {
+            match &node_ser.op {
+                OpType::Tag(tag) if tag.tag >= tag.variants.len() => {
+                    return Err(HUGRSerializationError::InvalidTag {
+                        node: portgraph::NodeIndex::new(idx).into(),
+                        tag: tag.tag,
+                        num_variants: tag.variants.len(),
+                    });
+                }
+                _ => {}
+            }
+        }
+
         // Root must be first node
         let mut nodes = nodes.into_iter();
         let NodeSer {
             parent: root_parent,
             op: root_type,
             ..
-        } = nodes.next().unwrap();
+        } = nodes.next().ok_or(HUGRSerializationError::NoNodes)?;
         if root_parent.index() != 0 {
             return Err(HUGRSerializationError::FirstNodeNotRoot(root_parent));
         }
@@ -278,30 +323,34 @@ impl TryFrom<SerHugrLatest> for Hugr {
         // encoded file did not have a module at the root), we need a function
         // to map the node indices.
         let padding_nodes = hugr.entrypoint.index();
-        let hugr_node =
-            |node: Node| -> Node { portgraph::NodeIndex::new(node.index() + padding_nodes).into() };
+        let hugr_node = |node: Node| -> Result<Node, Self::Error> {
+            if node.index() >= num_nodes {
+                return Err(HUGRSerializationError::UnknownNode { node });
+            }
+            Ok(portgraph::NodeIndex::new(node.index() + padding_nodes).into())
+        };
 
         for node_ser in nodes {
-            hugr.add_node_with_parent(hugr_node(node_ser.parent), node_ser.op);
+            let parent = hugr_node(node_ser.parent)?;
+            let node = hugr.add_node(node_ser.op);
+            hugr.hierarchy
+                .push_child(node.into_portgraph(), parent.into_portgraph())?;
         }
 
         if let Some(entrypoint) = entrypoint {
-            hugr.set_entrypoint(hugr_node(entrypoint));
+            hugr.set_entrypoint(hugr_node(entrypoint)?);
         }
 
         if let Some(metadata) = metadata {
             for (node_idx, metadata) in metadata.into_iter().enumerate() {
                 if let Some(metadata) = metadata {
-                    let node = hugr_node(portgraph::NodeIndex::new(node_idx).into());
+                    let node = hugr_node(portgraph::NodeIndex::new(node_idx).into())?;
                     hugr.metadata[node.into_portgraph()] = Some(metadata);
                 }
             }
         }
 
         let unwrap_offset = |node: Node, offset, dir, hugr: &Hugr| -> Result<usize, Self::Error> {
-            if !hugr.graph.contains_node(node.into_portgraph()) {
-                return Err(HUGRSerializationError::UnknownEdgeNode { node });
-            }
             let offset = if let Some(offset) = offset {
                 offset as usize
             } else {
@@ -315,11 +364,22 @@ impl TryFrom<SerHugrLatest> for Hugr {
                     })?
                     .index()
             };
+            if offset >= hugr.graph.num_ports(node.into_portgraph(), dir) {
+                return Err(HUGRSerializationError::InvalidPortOffset {
+                    node,
+                    dir,
+                    offset,
+                    op_type: hugr.get_optype(node).clone(),
+                });
+            }
             Ok(offset)
         };
+        let edge_node = |node: Node| {
+            hugr_node(node).map_err(|_| HUGRSerializationError::UnknownEdgeNode { node })
+        };
         for [(src, from_offset), (dst, to_offset)] in edges {
-            let src = hugr_node(src);
-            let dst = hugr_node(dst);
+            let src = edge_node(src)?;
+            let dst = edge_node(dst)?;
 
             let src_port = unwrap_offset(src, from_offset, Direction::Outgoing, &hugr)?;
             let dst_port = unwrap_offset(dst, to_offset, Direction::Incoming, &hugr)?;
-- 
2.43.0


From 5a6a1e68ef9c7067db0f26a7807c38fc122f006e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 11/73] fix: report natural number literals that are too large

---
 hugr-model/src/v0/ast/parse.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hugr-model/src/v0/ast/parse.rs b/hugr-model/src/v0/ast/parse.rs
index a2c9a5c..06146c7 100644
--- a/hugr-model/src/v0/ast/parse.rs
+++ b/hugr-model/src/v0/ast/parse.rs
@@ -397,8 +397,10 @@ fn parse_bytes(pair: Pair<Rule>) -> ParseResult<Arc<[u8]>> {
 
 fn parse_nat(pair: Pair<Rule>) -> ParseResult<u64> {
     debug_assert_eq!(pair.as_rule(), Rule::literal_nat);
-    let value = pair.as_str().trim().parse().unwrap();
-    Ok(value)
+    pair.as_str()
+        .trim()
+        .parse()
+        .map_err(|_| ParseError::custom("natural number literal is too large", pair.as_span()))
 }
 
 fn parse_float(pair: Pair<Rule>) -> ParseResult<OrderedFloat<f64>> {
-- 
2.43.0


From f88ffad5e964fc69e125b7656ef31bdfe0ed1c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 12/73] fix: bound the memory for reading a damaged binary
 model

---
 hugr-model/src/v0/binary/read.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hugr-model/src/v0/binary/read.rs b/hugr-model/src/v0/binary/read.rs
index 272c8b8..e42e36c 100644
--- a/hugr-model/src/v0/binary/read.rs
+++ b/hugr-model/src/v0/binary/read.rs
@@ -54,6 +54,11 @@ pub fn read_from_reader(reader: impl BufRead, bump: &Bump) -> ReadResult<table::
         RetryInterrupted(reader),
         capnp::message::ReaderOptions::new(),
     )?;
+    // Limit how much we read by the size of the message, so that a list which
+    // claims an enormous number of empty elements does not exhaust the memory.
+    let mut options = capnp::message::ReaderOptions::new();
+    options.traversal_limit_in_words(Some(1024 + 8 * reader.size_in_words()));
+    let reader = capnp::message::Reader::new(reader.into_segments(), options);
     let root = reader.get_root::<hugr_capnp::package::Reader>()?;
     read_package(bump, root)
 }
-- 
2.43.0


From 22ed55e39951623aaf4159240e6c5d67414da0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 13/73] fix: reject malformed model modules on import instead
 of panicking

---
 hugr-core/src/import.rs | 94 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 85 insertions(+), 9 deletions(-)

diff --git a/hugr-core/src/import.rs b/hugr-core/src/import.rs
index 8c4f2a2..faa052b 100644
--- a/hugr-core/src/import.rs
+++ b/hugr-core/src/import.rs
@@ -262,7 +262,8 @@ pub(crate) fn import_described_hugr(
         ctx.description.set_used_extensions_generator(exts);
     }
     ctx.description.set_num_nodes(module.nodes.len());
-    let import_steps: [fn(&mut Context) -> _; 3] = [
+    let import_steps: [fn(&mut Context) -> _; 4] = [
+        |ctx| ctx.check_acyclic_terms(),
         |ctx| ctx.import_root(),
         |ctx| ctx.link_ports(),
         |ctx| ctx.link_static_ports(),
@@ -307,6 +308,63 @@ struct Context<'a> {
 }
 
 impl<'a> Context<'a> {
+    /// Check that no term contains itself.
+    fn check_acyclic_terms(&mut self) -> Result<(), ImportErrorInner> {
+        #[derive(Clone, Copy, PartialEq)]
+        enum Mark {
+            New,
+            Open,
+            Done,
+        }
+
+        let mut marks = vec![Mark::New; self.module.terms.len()];
+        let mut stack: Vec<_> = (0..self.module.terms.len())
+            .map(table::TermId::new)
+            .collect();
+
+        while let Some(&term_id) = stack.last() {
+            match marks.get(term_id.index()) {
+                Some(Mark::New) => {
+                    marks[term_id.index()] = Mark::Open;
+                    let children: Vec<_> = match self.get_term(term_id)? {
+                        table::Term::Apply(_, args) => args.to_vec(),
+                        table::Term::List(parts) | table::Term::Tuple(parts) => parts
+                            .iter()
+                            .map(|part| match part {
+                                table::SeqPart::Item(id) | table::SeqPart::Splice(id) => *id,
+                            })
+                            .collect(),
+                        table::Term::Wildcard
+                        | table::Term::Var(_)
+                        | table::Term::Literal(_)
+                        | table::Term::Func(_) => {
+                            vec![]
+                        }
+                    };
+                    for child in children {
+                        match marks.get(child.index()) {
+                            Some(Mark::New) => stack.push(child),
+                            Some(Mark::Open) => {
+                                return Err(error_invalid!("term {} contains itself", child));
+                            }
+                            // Invalid ids are reported when the term is imported.
+                            Some(Mark::Done) | None => {}
+                        }
+                    }
+                }
+                Some(Mark::Open) => {
+                    marks[term_id.index()] = Mark::Done;
+                    stack.pop();
+                }
+                Some(Mark::Done) | None => {
+                    stack.pop();
+                }
+            }
+        }
+
+        Ok(())
+    }
+
     /// Get the signature of the node with the given `NodeId`.
     fn get_node_signature(&mut self, node: table::NodeId) -> Result<Signature, ImportErrorInner> {
         let node_data = self.get_node(node)?;
@@ -350,7 +408,9 @@ impl<'a> Context<'a> {
         parent: Node,
     ) -> Result<Node, ImportErrorInner> {
         let node = self.hugr.add_node_with_parent(parent, op);
-        self.nodes.insert(node_id, node);
+        if self.nodes.insert(node_id, node).is_some() {
+            return Err(error_invalid!("node {} occurs more than once", node_id));
+        }
 
         let node_data = self.get_node(node_id)?;
         self.record_links(node, Direction::Incoming, node_data.inputs);
@@ -491,10 +551,16 @@ impl<'a> Context<'a> {
     /// Connects static ports according to the connections in [`self.static_edges`].
     fn link_static_ports(&mut self) -> Result<(), ImportErrorInner> {
         for (src_id, dst_id) in std::mem::take(&mut self.static_edges) {
-            // None of these lookups should fail given how we constructed `static_edges`.
-            let src = self.nodes[&src_id];
+            // The target is a node we have created, but the symbol may be
+            // defined by a node that is not a function.
+            let not_a_function = || error_invalid!("node {} does not define a function", src_id);
+            let src = *self.nodes.get(&src_id).ok_or_else(not_a_function)?;
             let dst = self.nodes[&dst_id];
-            let src_port = self.hugr.get_optype(src).static_output_port().unwrap();
+            let src_port = self
+                .hugr
+                .get_optype(src)
+                .static_output_port()
+                .ok_or_else(not_a_function)?;
             let dst_port = self.hugr.get_optype(dst).static_input_port().unwrap();
             self.hugr.connect(src, src_port, dst, dst_port);
         }
@@ -1300,6 +1366,12 @@ impl<'a> Context<'a> {
                 .ok_or_else(|| error_uninferred!("node signature"))?;
             let [_, outputs] = self.get_func_type(signature)?;
             let (variants, _) = self.import_adt_and_rest(outputs)?;
+            if *tag as usize >= variants.len() {
+                return Err(error_invalid!(
+                    "the tag of a `{}` must be a valid index into the list of variants",
+                    model::CORE_MAKE_ADT
+                ));
+            }
             let node = self.make_node(
                 node_id,
                 OpType::Tag(Tag {
@@ -1497,12 +1569,15 @@ impl<'a> Context<'a> {
                 table::Term::Wildcard => Err(error_uninferred!("wildcard")),
 
                 table::Term::Var(var) => {
+                    // Take the variable out of scope while importing its type,
+                    // which must not mention the variable itself.
                     let var_info = self
                         .local_vars
-                        .get(var)
+                        .remove(var)
                         .ok_or_else(|| error_invalid!("unknown variable {}", var))?;
-                    let decl = self.import_term_with_bound(var_info.r#type, var_info.bound)?;
-                    Ok(Term::new_var_use(var.1 as _, decl))
+                    let decl = self.import_term_with_bound(var_info.r#type, var_info.bound);
+                    self.local_vars.insert(*var, var_info);
+                    Ok(Term::new_var_use(var.1 as _, decl?))
                 }
 
                 table::Term::List(parts) => {
@@ -1994,7 +2069,8 @@ impl<'a> Context<'a> {
                 }
             };
 
-            return Ok(Value::sum(*tag as _, items, ty).unwrap());
+            return Value::sum(*tag as _, items, ty)
+                .map_err(|err| error_invalid!("invalid `{}`: {}", model::CORE_CONST_ADT, err));
         }
 
         match term_data {
-- 
2.43.0


From ecaa4bb6cded7980c79b1fee366fd28e15e63362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:39 +0000
Subject: [PATCH 14/73] hook: constructor for transactions behind cfg
 verif_hooks

---
 hugr-core/src/hugr/patch.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/hugr-core/src/hugr/patch.rs b/hugr-core/src/hugr/patch.rs
index 828bd2c..146bd7e 100644
--- a/hugr-core/src/hugr/patch.rs
+++ b/hugr-core/src/hugr/patch.rs
@@ -153,6 +153,19 @@ pub struct Transactional<R> {
     underlying: R,
 }
 
+#[allow(unexpected_cfgs)]
+mod verif_hooks {
+    /// Lets verification harnesses, which live outside this crate, wrap a
+    /// rewrite into a transaction. Only with `--cfg verif_hooks`.
+    #[cfg(verif_hooks)]
+    impl<R> super::Transactional<R> {
+        /// Wrap a rewrite into a transaction.
+        pub fn new(underlying: R) -> Self {
+            Self { underlying }
+        }
+    }
+}
+
 impl<R: PatchVerification> PatchVerification for Transactional<R> {
     type Error = R::Error;
     type Node = R::Node;
-- 
2.43.0


From cdd3b38da3b9960a5df66d3bbfc97891f800e4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:42 +0000
Subject: [PATCH 15/73] fix: validation reports a container with a single child
 instead of panicking

---
 hugr-core/src/hugr/validate.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/hugr-core/src/hugr/validate.rs b/hugr-core/src/hugr/validate.rs
index 25316db..464c54b 100644
--- a/hugr-core/src/hugr/validate.rs
+++ b/hugr-core/src/hugr/validate.rs
@@ -355,6 +355,12 @@ impl<'a, H: HugrView> ValidationContext<'a, H> {
                         position: "second",
                     });
                 }
+            } else if flags.allowed_second_child != OpTag::Any {
+                return Err(ValidationError::MissingSecondChild {
+                    node,
+                    optype: Box::new(op_type.clone()),
+                    expected: flags.allowed_second_child,
+                });
             }
             // Additional validations running over the full list of children optypes
             let children_optypes = all_children.map(|c| (c, self.hugr.get_optype(c)));
@@ -729,6 +735,15 @@ pub enum ValidationError<N: HugrNode> {
     /// The node must have children, but has none.
     #[error("{node} with optype {optype} must have children, but has none.")]
     ContainerWithoutChildren { node: N, optype: Box<OpType> },
+    /// The node must have a certain second child, but has only one child.
+    #[error(
+        "{node} with optype {optype} must have a second child, of type {expected}, but has only one child."
+    )]
+    MissingSecondChild {
+        node: N,
+        optype: Box<OpType>,
+        expected: OpTag,
+    },
     /// The children of a node do not form a DAG.
     #[error(
         "The children of an operation {optype} must form a DAG. Loops are not allowed. In {node}."
-- 
2.43.0


From 19f13af15538473bb5477da82645eee24738d2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:12 +0000
Subject: [PATCH 16/73] fix: metadata does not outlive or leave its node

Removing a node kept its metadata for the next node given the same slot, and
canonicalize_nodes left the metadata at the old positions.
---
 hugr-core/src/hugr.rs         | 1 +
 hugr-core/src/hugr/hugrmut.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/hugr-core/src/hugr.rs b/hugr-core/src/hugr.rs
index d1f8206..460a81e 100644
--- a/hugr-core/src/hugr.rs
+++ b/hugr-core/src/hugr.rs
@@ -378,6 +378,7 @@ impl Hugr {
             if pg_target != pg_source {
                 self.graph.swap_nodes(pg_target, pg_source);
                 self.op_types.swap(pg_target, pg_source);
+                self.metadata.swap(pg_target, pg_source);
                 self.hierarchy.swap_nodes(pg_target, pg_source);
                 rekey(source, pg_target.into());
             }
diff --git a/hugr-core/src/hugr/hugrmut.rs b/hugr-core/src/hugr/hugrmut.rs
index 3a1564c..ca05a92 100644
--- a/hugr-core/src/hugr/hugrmut.rs
+++ b/hugr-core/src/hugr/hugrmut.rs
@@ -486,6 +486,7 @@ impl HugrMut for Hugr {
         panic_invalid_non_entrypoint(self, node);
         self.hierarchy.remove(node.into_portgraph());
         self.graph.remove_node(node.into_portgraph());
+        self.metadata.set(node.into_portgraph(), None);
         self.op_types.take(node.into_portgraph())
     }
 
-- 
2.43.0


From 6734b09f99bcfc0161bfa938ef3b7665bdcdad14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:12 +0000
Subject: [PATCH 17/73] fix: extracting the module makes it the entrypoint

---
 hugr-core/src/hugr/views.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/hugr/views.rs b/hugr-core/src/hugr/views.rs
index ff53ca0..acebcd6 100644
--- a/hugr-core/src/hugr/views.rs
+++ b/hugr-core/src/hugr/views.rs
@@ -714,7 +714,9 @@ impl HugrView for Hugr {
     fn extract_hugr(&self, target: Node) -> (Hugr, impl ExtractionResult<Node> + 'static) {
         // Shortcircuit if the extracted HUGR is the same as the original
         if target == self.module_root().node() {
-            return (self.clone(), DefaultNodeMap(HashMap::new()));
+            let mut extracted = self.clone();
+            extracted.set_entrypoint(target);
+            return (extracted, DefaultNodeMap(HashMap::new()));
         }
 
         // Initialize a new HUGR with the desired entrypoint operation.
-- 
2.43.0


From 8f55322008bbb1d7e92008fd5c301981deabc64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:12 +0000
Subject: [PATCH 18/73] fix: copy_descendants to a parent inside the copied
 part

---
 hugr-core/src/hugr/hugrmut.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/hugr-core/src/hugr/hugrmut.rs b/hugr-core/src/hugr/hugrmut.rs
index ca05a92..d5a8c99 100644
--- a/hugr-core/src/hugr/hugrmut.rs
+++ b/hugr-core/src/hugr/hugrmut.rs
@@ -618,21 +618,30 @@ impl HugrMut for Hugr {
         let root2 = descendants.next();
         debug_assert_eq!(root2, Some(root.into_portgraph()));
         let nodes = Vec::from_iter(descendants);
+        // The hierarchy to copy, before adding to it: `new_parent` may be one of the `descendants`.
+        let hierarchy: Vec<(Node, Vec<Node>)> = nodes
+            .iter()
+            .map(|n| ((*n).into(), self.children((*n).into()).collect()))
+            .collect();
+        let root_children: Vec<Node> = self.children(root).collect();
         let node_map = portgraph::view::Subgraph::with_nodes(&mut self.graph, nodes)
             .copy_in_parent()
             .expect("Is a MultiPortGraph");
         let node_map =
             translate_indices(Into::into, Into::into, node_map).collect::<BTreeMap<_, _>>();
 
-        for node in self.children(root).collect::<Vec<_>>() {
+        for node in root_children {
             self.set_parent(*node_map.get(&node).unwrap(), new_parent);
         }
-
-        // Copy the optypes, metadata, and hierarchy
-        for (&node, &new_node) in &node_map {
-            for ch in self.children(node).collect::<Vec<_>>() {
+        for (node, children) in hierarchy {
+            let new_node = *node_map.get(&node).unwrap();
+            for ch in children {
                 self.set_parent(*node_map.get(&ch).unwrap(), new_node);
             }
+        }
+
+        // Copy the optypes and metadata
+        for (&node, &new_node) in &node_map {
             let new_optype = match (&subst, self.get_optype(node)) {
                 (None, op) => op.clone(),
                 (Some(subst), op) => op.substitute(subst),
-- 
2.43.0


From e6e0fe84c705d8a9c45529ef9d1231cd2cefabc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:12 +0000
Subject: [PATCH 19/73] fix: inserting a forest leaves nodes without a copied
 parent parentless

This is what the documentation says; it was a panic.
---
 hugr-core/src/hugr/hugrmut.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hugr-core/src/hugr/hugrmut.rs b/hugr-core/src/hugr/hugrmut.rs
index d5a8c99..586a03c 100644
--- a/hugr-core/src/hugr/hugrmut.rs
+++ b/hugr-core/src/hugr/hugrmut.rs
@@ -733,9 +733,10 @@ fn insert_forest_internal<H: HugrView>(
     for old in other_nodes {
         let new = node_map[&old];
         if hugr.get_parent(new).is_none() {
-            let old_parent = other.get_parent(old).unwrap();
-            let new_parent = node_map[&old_parent];
-            hugr.set_parent(new, new_parent);
+            let old_parent = other.get_parent(old);
+            if let Some(&new_parent) = old_parent.and_then(|p| node_map.get(&p)) {
+                hugr.set_parent(new, new_parent);
+            }
         }
     }
     Ok(InsertedForest { node_map })
-- 
2.43.0


From 4b8672817ea0c75cb7541839f1f41182084eb3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:28 +0000
Subject: [PATCH 20/73] fix: RemoveLoadConstant on a node with order edges

---
 hugr-core/src/hugr/patch/consts.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hugr-core/src/hugr/patch/consts.rs b/hugr-core/src/hugr/patch/consts.rs
index dcdeea5..70504bc 100644
--- a/hugr-core/src/hugr/patch/consts.rs
+++ b/hugr-core/src/hugr/patch/consts.rs
@@ -63,10 +63,9 @@ impl<N: HugrNode> PatchHugrMut for RemoveLoadConstant<N> {
     fn apply_hugr_mut(self, h: &mut impl HugrMut<Node = N>) -> Result<Self::Outcome, Self::Error> {
         self.verify(h)?;
         let node = self.0;
+        // Note there may be order edges to the node as well.
         let source = h
-            .input_neighbours(node)
-            .exactly_one()
-            .ok()
+            .static_source(node)
             .expect("Validation should check a Const is connected to LoadConstant.");
         h.remove_node(node);
 
-- 
2.43.0


From 61b1974fc93dd85d7c4ac0dfea82185affecc18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:28 +0000
Subject: [PATCH 21/73] fix: InlineCall of a node that has gone is an error

---
 hugr-core/src/hugr/patch/inline_call.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hugr-core/src/hugr/patch/inline_call.rs b/hugr-core/src/hugr/patch/inline_call.rs
index a4d8383..fc1107f 100644
--- a/hugr-core/src/hugr/patch/inline_call.rs
+++ b/hugr-core/src/hugr/patch/inline_call.rs
@@ -19,6 +19,10 @@ pub enum InlineCallError<N = Node> {
     /// The specified Node was not a [Call](OpType::Call)
     #[display("Node to inline {_0} expected to be a Call but actually {_1}")]
     NotCallNode(N, OpType),
+    /// The specified Node is not in the Hugr
+    #[display("Node to inline {_0} is not in the Hugr")]
+    #[error(ignore)]
+    InvalidNode(N),
     /// The node was a Call, but the target was not a [`FuncDefn`](OpType::FuncDefn)
     /// - presumably a [`FuncDecl`](OpType::FuncDecl), if the Hugr is valid.
     #[display("Call targetted node {_0} which must be a FuncDefn but was {_1}")]
@@ -37,6 +41,9 @@ impl<N: HugrNode> PatchVerification for InlineCall<N> {
     type Error = InlineCallError<N>;
     type Node = N;
     fn verify(&self, h: &impl HugrView<Node = N>) -> Result<(), Self::Error> {
+        if !h.contains_node(self.0) {
+            return Err(InlineCallError::InvalidNode(self.0));
+        }
         let call_ty = h.get_optype(self.0);
         if !call_ty.is_call() {
             return Err(InlineCallError::NotCallNode(self.0, call_ty.clone()));
-- 
2.43.0


From e736db19cdecbbe7c3438ffbf614920814e05511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:28 +0000
Subject: [PATCH 22/73] fix: InlineDFG of a node that has gone is an error

---
 hugr-core/src/hugr/patch/inline_dfg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hugr-core/src/hugr/patch/inline_dfg.rs b/hugr-core/src/hugr/patch/inline_dfg.rs
index f5a3653..ac49d76 100644
--- a/hugr-core/src/hugr/patch/inline_dfg.rs
+++ b/hugr-core/src/hugr/patch/inline_dfg.rs
@@ -35,7 +35,7 @@ impl<N: HugrNode> PatchVerification for InlineDFG<N> {
 
     fn verify(&self, h: &impl crate::HugrView<Node = N>) -> Result<(), Self::Error> {
         let n = self.0.node();
-        if h.get_optype(n).as_dfg().is_none() {
+        if !h.contains_node(n) || h.get_optype(n).as_dfg().is_none() {
             return Err(InlineDFGError::NotDFG { node: n });
         }
         if n == h.entrypoint() {
-- 
2.43.0


From 211e501a8b1ab2b39c1a0a50e2ca2cb3363e6864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:28 +0000
Subject: [PATCH 23/73] fix: InsertCut checks its targets before applying

---
 hugr-core/src/hugr/patch/insert_cut.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/hugr-core/src/hugr/patch/insert_cut.rs b/hugr-core/src/hugr/patch/insert_cut.rs
index 518c75c..ca530ce 100644
--- a/hugr-core/src/hugr/patch/insert_cut.rs
+++ b/hugr-core/src/hugr/patch/insert_cut.rs
@@ -66,6 +66,10 @@ pub enum InsertCutError<N = Node> {
     #[error("Incoming port has {0} connections, expected exactly 1.")]
     InvalidIncomingPort(usize),
 
+    /// The same target was given more than once.
+    #[error("Target {1} of node {0} given more than once.")]
+    DuplicateTarget(N, IncomingPort),
+
     /// Target number mismatch.
     #[error("Target number mismatch, expected {0}, found {1}.")]
     TargetNumberMismatch(usize, usize),
@@ -108,12 +112,18 @@ impl<N: HugrNode> PatchVerification for InsertCut<N> {
             if !h.contains_node(*node) {
                 return Err(InsertCutError::InvalidNode(*node));
             }
+            if !h.node_inputs(*node).contains(port) {
+                return Err(InsertCutError::InvalidIncomingPort(0));
+            }
 
             let n_links = h.linked_outputs(*node, *port).count();
             if n_links != 1 {
                 return Err(InsertCutError::InvalidIncomingPort(n_links));
             }
         }
+        if let Some((node, port)) = self.targets.iter().duplicates().next() {
+            return Err(InsertCutError::DuplicateTarget(*node, *port));
+        }
         Ok(())
     }
 
@@ -135,6 +145,7 @@ impl PatchHugrMut for InsertCut<Node> {
         self,
         h: &mut impl HugrMut<Node = Node>,
     ) -> Result<Self::Outcome, InsertCutError> {
+        self.verify(h)?;
         let insert_res = h.insert_hugr(self.parent, self.insertion);
         let inserted_entrypoint = insert_res.inserted_entrypoint;
         for (i, (target, port)) in self.targets.into_iter().enumerate() {
-- 
2.43.0


From 406d4707c13dd2338220a379d990ca0de140edc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:28 +0000
Subject: [PATCH 24/73] fix: implement verify for IdentityInsertion

---
 hugr-core/src/hugr/patch/insert_identity.rs | 32 +++++++++++----------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/hugr-core/src/hugr/patch/insert_identity.rs b/hugr-core/src/hugr/patch/insert_identity.rs
index 725a0dd..fbc5d6f 100644
--- a/hugr-core/src/hugr/patch/insert_identity.rs
+++ b/hugr-core/src/hugr/patch/insert_identity.rs
@@ -52,18 +52,22 @@ impl<N: HugrNode> PatchVerification for IdentityInsertion<N> {
     type Error = IdentityInsertionError;
     type Node = N;
 
-    fn verify(&self, _h: &impl HugrView) -> Result<(), IdentityInsertionError> {
-        /*
-        Assumptions:
-        1. Value kind inputs can only have one connection.
-        2. Node exists.
-        Conditions:
-        1. post_port is Value kind.
-        2. post_port is connected to a sibling of post_node.
-        3. post_port is input.
-         */
-
-        unimplemented!()
+    fn verify(&self, h: &impl HugrView<Node = N>) -> Result<(), IdentityInsertionError> {
+        // Assumption: Value kind inputs have exactly one connection.
+        if !h.contains_node(self.post_node) {
+            return Err(IdentityInsertionError::InvalidNode());
+        }
+        let kind = h.get_optype(self.post_node).port_kind(self.post_port);
+        if !matches!(kind, Some(EdgeKind::Value(_))) {
+            return Err(IdentityInsertionError::InvalidPortKind(kind));
+        }
+        let parent = h
+            .get_parent(self.post_node)
+            .ok_or(IdentityInsertionError::InvalidParentNode)?;
+        if !OpTag::DataflowParent.is_superset(h.get_optype(parent).tag()) {
+            return Err(IdentityInsertionError::InvalidParentNode);
+        }
+        Ok(())
     }
 
     #[inline]
@@ -85,6 +89,7 @@ impl<N: HugrNode> PatchHugrMut for IdentityInsertion<N> {
         self,
         h: &mut impl HugrMut<Node = N>,
     ) -> Result<Self::Outcome, IdentityInsertionError> {
+        self.verify(h)?;
         let kind = h.get_optype(self.post_node).port_kind(self.post_port);
         let Some(EdgeKind::Value(ty)) = kind else {
             return Err(IdentityInsertionError::InvalidPortKind(kind));
@@ -98,9 +103,6 @@ impl<N: HugrNode> PatchHugrMut for IdentityInsertion<N> {
         let parent = h
             .get_parent(self.post_node)
             .ok_or(IdentityInsertionError::InvalidParentNode)?;
-        if !OpTag::DataflowParent.is_superset(h.get_optype(parent).tag()) {
-            return Err(IdentityInsertionError::InvalidParentNode);
-        }
         let new_node = h.add_node_with_parent(parent, Noop(ty));
         h.connect(pre_node, pre_port, new_node, 0);
 
-- 
2.43.0


From 8962fdbd5f3f91bdbe05dfd8a0f7072e13dbf749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:28 +0000
Subject: [PATCH 25/73] fix: OutlineCfg refuses the exit block and the
 entrypoint

---
 hugr-core/src/hugr/patch/outline_cfg.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/hugr-core/src/hugr/patch/outline_cfg.rs b/hugr-core/src/hugr/patch/outline_cfg.rs
index 081ba24..f0d8349 100644
--- a/hugr-core/src/hugr/patch/outline_cfg.rs
+++ b/hugr-core/src/hugr/patch/outline_cfg.rs
@@ -67,6 +67,12 @@ impl OutlineCfg {
                     }
                 }
             }
+            if n == h.entrypoint() {
+                return Err(OutlineCfgError::EntrypointInSet(n));
+            }
+            if !h.get_optype(n).is_dataflow_block() {
+                return Err(OutlineCfgError::NotBasicBlock(n));
+            }
             let external_succs = h.output_neighbours(n).filter(|s| !self.blocks.contains(s));
             match external_succs.at_most_one() {
                 Ok(None) => (), // No external successors
@@ -216,6 +222,12 @@ pub enum OutlineCfgError {
     /// The parent node was not a CFG node
     #[error("The parent node {0} was not a CFG but a {1}")]
     ParentNotCfg(Node, Box<OpType>),
+    /// One of the nodes was not a basic block, i.e. it was the exit block
+    #[error("Node {0} is not a basic block")]
+    NotBasicBlock(Node),
+    /// One of the blocks is the entrypoint of the Hugr, which cannot be moved
+    #[error("Block {0} is the entrypoint of the Hugr")]
+    EntrypointInSet(Node),
     /// Multiple blocks had incoming edges
     #[error("Multiple blocks had predecessors outside the set - at least {0} and {1}")]
     MultipleEntryNodes(Node, Node),
-- 
2.43.0


From b2d00f53507faddfb2d3f67a7d44221e5c9156f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:28 +0000
Subject: [PATCH 26/73] fix: PeelTailLoop of a node that has gone is an error

---
 hugr-core/src/hugr/patch/peel_loop.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hugr-core/src/hugr/patch/peel_loop.rs b/hugr-core/src/hugr/patch/peel_loop.rs
index ccb9218..5ec7cbd 100644
--- a/hugr-core/src/hugr/patch/peel_loop.rs
+++ b/hugr-core/src/hugr/patch/peel_loop.rs
@@ -28,6 +28,12 @@ pub enum PeelTailLoopError<N = Node> {
         /// The actual (non-tail-loop) operation
         op: OpType,
     },
+    /// The specified Node is not in the Hugr
+    #[display("Node to peel {node} is not in the Hugr")]
+    InvalidNode {
+        /// The node requested to peel
+        node: N,
+    },
 }
 
 impl<N> PeelTailLoop<N> {
@@ -41,6 +47,9 @@ impl<N: HugrNode> PatchVerification for PeelTailLoop<N> {
     type Error = PeelTailLoopError<N>;
     type Node = N;
     fn verify(&self, h: &impl HugrView<Node = N>) -> Result<(), Self::Error> {
+        if !h.contains_node(self.0) {
+            return Err(PeelTailLoopError::InvalidNode { node: self.0 });
+        }
         let opty = h.get_optype(self.0);
         if !opty.is_tail_loop() {
             return Err(PeelTailLoopError::NotTailLoop {
-- 
2.43.0


From 35c1bb3c58bdadab655c6432439a51b6ac19b2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:28 +0000
Subject: [PATCH 27/73] fix: Replacement verifies before it changes anything

---
 hugr-core/src/hugr/patch/replace.rs | 42 +++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/hugr-core/src/hugr/patch/replace.rs b/hugr-core/src/hugr/patch/replace.rs
index ba4104a..d28d6d4 100644
--- a/hugr-core/src/hugr/patch/replace.rs
+++ b/hugr-core/src/hugr/patch/replace.rs
@@ -143,6 +143,16 @@ impl<SrcNode: Copy, TgtNode: Copy> NewEdgeSpec<SrcNode, TgtNode> {
 }
 
 impl<HostNode: HugrNode, N: Clone> NewEdgeSpec<N, HostNode> {
+    /// The target of the existing edge that this one takes the place of, if any.
+    fn existing_target(&self) -> Option<(HostNode, IncomingPort)> {
+        match self.kind {
+            NewEdgeKind::Value { tgt_pos, .. } | NewEdgeKind::Static { tgt_pos, .. } => {
+                Some((self.tgt, tgt_pos))
+            }
+            NewEdgeKind::Order | NewEdgeKind::ControlFlow { .. } => None,
+        }
+    }
+
     fn check_existing_edge(
         &self,
         h: &impl HugrView<Node = HostNode>,
@@ -176,6 +186,9 @@ impl<HostNode: HugrNode> Replacement<HostNode> {
         &self,
         h: &impl HugrView<Node = HostNode>,
     ) -> Result<HostNode, ReplaceError<HostNode>> {
+        if let Some(n) = self.removal.iter().find(|n| !h.contains_node(**n)) {
+            return Err(ReplaceError::InvalidRemovedNode(*n));
+        }
         let parent = self
             .removal
             .iter()
@@ -225,8 +238,9 @@ impl<HostNode: HugrNode> Replacement<HostNode> {
         let mut removed = HashSet::new();
         let mut queue = VecDeque::from_iter(self.removal.iter().copied());
         while let Some(n) = queue.pop_front() {
-            let new = removed.insert(n);
-            debug_assert!(new); // Fails only if h's hierarchy has merges (is not a tree)
+            if !removed.insert(n) {
+                continue; // `self.removal` mentions the node more than once
+            }
             if !transferred.remove(&n) {
                 h.children(n).for_each(|ch| queue.push_back(ch));
             }
@@ -247,6 +261,9 @@ impl<HostNode: HugrNode> PatchVerification for Replacement<HostNode> {
     fn verify(&self, h: &impl HugrView<Node = HostNode>) -> Result<(), Self::Error> {
         self.check_parent(h)?;
         let removed = self.get_removed_nodes(h)?;
+        if removed.contains(&h.entrypoint()) {
+            return Err(ReplaceError::CantRemoveEntrypoint(h.entrypoint()));
+        }
         // Edge sources...
         for e in &self.mu_inp {
             if !h.contains_node(e.src) || removed.contains(&e.src) {
@@ -317,6 +334,20 @@ impl<HostNode: HugrNode> PatchVerification for Replacement<HostNode> {
             // fast-path.
             e.check_existing_edge(h, &removed, WhichEdgeSpec::HostToHost)?;
         }
+        // Only one new edge can take the place of each removed edge.
+        let mut replaced = HashSet::new();
+        for e in &self.mu_out {
+            if !e.existing_target().is_none_or(|t| replaced.insert(t)) {
+                let e = WhichEdgeSpec::ReplToHost(e.clone());
+                return Err(ReplaceError::NoRemovedEdge(e));
+            }
+        }
+        for e in &self.mu_new {
+            if !e.existing_target().is_none_or(|t| replaced.insert(t)) {
+                let e = WhichEdgeSpec::HostToHost(e.clone());
+                return Err(ReplaceError::NoRemovedEdge(e));
+            }
+        }
         Ok(())
     }
 
@@ -338,6 +369,7 @@ impl<HostNode: HugrNode> PatchHugrMut for Replacement<HostNode> {
         self,
         h: &mut impl HugrMut<Node = HostNode>,
     ) -> Result<Self::Outcome, Self::Error> {
+        self.verify(h)?;
         let parent = self.check_parent(h)?;
         // Calculate removed nodes here. (Does not include transfers, so enumerates only
         // nodes we are going to remove, individually, anyway; so no *asymptotic* speed
@@ -479,6 +511,12 @@ pub enum ReplaceError<HostNode = Node> {
     // (Perhaps if there is only one node to replace we should be able to?)
     #[error("Cannot replace the root node of the Hugr")]
     CantReplaceRoot,
+    /// A node to replace is not in the Hugr
+    #[error("Node {0} to be removed is not in the Hugr")]
+    InvalidRemovedNode(HostNode),
+    /// The entrypoint of the Hugr is among the nodes that would be removed
+    #[error("Cannot remove the entrypoint {0} of the Hugr")]
+    CantRemoveEntrypoint(HostNode),
     /// The nodes to replace did not have a unique common parent
     #[error("Removed nodes had different parents {0:?}")]
     MultipleParents(Vec<HostNode>),
-- 
2.43.0


From e2fc382d2ed2532c2b42bff050fff0afeda7ae19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:28 +0000
Subject: [PATCH 28/73] fix: SimpleReplacement checks that its subgraph still
 exists

---
 hugr-core/src/hugr/patch/simple_replace.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/hugr-core/src/hugr/patch/simple_replace.rs b/hugr-core/src/hugr/patch/simple_replace.rs
index 46e5bde..631ba71 100644
--- a/hugr-core/src/hugr/patch/simple_replace.rs
+++ b/hugr-core/src/hugr/patch/simple_replace.rs
@@ -95,9 +95,15 @@ impl<HostNode: HugrNode> SimpleReplacement<HostNode> {
         &self,
         h: &impl HugrView<Node = HostNode>,
     ) -> Result<(), SimpleReplacementError> {
-        let parent = self.subgraph.get_parent(h);
-
         // 1. Check the parent node exists and is a DataflowParent.
+        let nodes = self.subgraph.nodes();
+        if !nodes.iter().all(|&n| h.contains_node(n)) {
+            return Err(SimpleReplacementError::InvalidRemovedNode());
+        }
+        let parent = nodes
+            .first()
+            .and_then(|&n| h.get_parent(n))
+            .ok_or(SimpleReplacementError::InvalidParentNode())?;
         if !OpTag::DataflowParent.is_superset(h.get_optype(parent).tag()) {
             return Err(SimpleReplacementError::InvalidParentNode());
         }
@@ -109,6 +115,18 @@ impl<HostNode: HugrNode> SimpleReplacement<HostNode> {
             }
         }
 
+        // 3. Check that the boundary of the subgraph exists.
+        let mut incoming = self.subgraph.incoming_ports().iter().flatten();
+        let mut outgoing = self.subgraph.outgoing_ports().iter();
+        if !incoming.all(|&(n, p)| {
+            h.contains_node(n)
+                && h.node_inputs(n).contains(&p)
+                && h.single_linked_output(n, p).is_some()
+        }) || !outgoing.all(|&(n, p)| h.contains_node(n) && h.node_outputs(n).contains(&p))
+        {
+            return Err(SimpleReplacementError::InvalidRemovedNode());
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From 8acb2848a3a6175186bde544c10fd583369ec851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:28 +0000
Subject: [PATCH 29/73] fix: transactions restore programs with a nested
 entrypoint

---
 hugr-core/src/hugr/patch.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/hugr/patch.rs b/hugr-core/src/hugr/patch.rs
index 146bd7e..5b743a7 100644
--- a/hugr-core/src/hugr/patch.rs
+++ b/hugr-core/src/hugr/patch.rs
@@ -210,15 +210,17 @@ impl<R: PatchHugrMut> PatchHugrMut for Transactional<R> {
         if r.is_err() {
             // Restore the backup.
             let h_root = h.module_root();
+            // The entrypoint cannot be removed, so move it out of the way.
+            h.set_entrypoint(h_root);
             for f in h.children(h_root).collect_vec() {
                 h.remove_subtree(f);
             }
             let insert_map = h.insert_hugr(h_root, backup).node_map;
             let inserted_root = insert_map[&backup_root];
             let inserted_entrypoint = insert_map[&backup_entrypoint];
-            h.remove_node(h_root);
             h.set_module_root(inserted_root);
             h.set_entrypoint(inserted_entrypoint);
+            h.remove_node(h_root);
         }
         r
     }
-- 
2.43.0


From d5640a6f2e13aeb2be07863a352dcdc7e9ba521e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:11 +0000
Subject: [PATCH 30/73] fix: importing a model node with too many links or an
 order hint on a symbol

---
 hugr-core/src/import.rs | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/hugr-core/src/import.rs b/hugr-core/src/import.rs
index faa052b..6a8c090 100644
--- a/hugr-core/src/import.rs
+++ b/hugr-core/src/import.rs
@@ -413,8 +413,8 @@ impl<'a> Context<'a> {
         }
 
         let node_data = self.get_node(node_id)?;
-        self.record_links(node, Direction::Incoming, node_data.inputs);
-        self.record_links(node, Direction::Outgoing, node_data.outputs);
+        self.record_links(node, Direction::Incoming, node_data.inputs)?;
+        self.record_links(node, Direction::Outgoing, node_data.outputs)?;
 
         for meta_item in node_data.meta {
             self.import_node_metadata(node, *meta_item)
@@ -482,10 +482,21 @@ impl<'a> Context<'a> {
     }
 
     /// Associate links with the ports of the given node in the given direction.
-    fn record_links(&mut self, node: Node, direction: Direction, links: &'a [table::LinkIndex]) {
-        let optype = self.hugr.get_optype(node);
+    fn record_links(
+        &mut self,
+        node: Node,
+        direction: Direction,
+        links: &'a [table::LinkIndex],
+    ) -> Result<(), ImportErrorInner> {
         // NOTE: `OpType::port_count` copies the signature, which significantly slows down the import.
-        debug_assert!(links.len() <= optype.port_count(direction));
+        let ports = self.hugr.num_ports(node, direction);
+        if links.len() > ports {
+            return Err(error_invalid!(
+                "{} links for a node with {} ports",
+                links.len(),
+                ports
+            ));
+        }
 
         for (link, port) in links.iter().zip(self.hugr.node_ports(node, direction)) {
             self.link_ports
@@ -493,6 +504,8 @@ impl<'a> Context<'a> {
                 .or_default()
                 .push((node, port));
         }
+
+        Ok(())
     }
 
     /// Link up the ports in the hugr graph, according to the connectivity information that
@@ -773,8 +786,8 @@ impl<'a> Context<'a> {
         );
 
         // Make sure that the ports of the input/output nodes are connected correctly
-        self.record_links(input, Direction::Outgoing, region_data.sources);
-        self.record_links(output, Direction::Incoming, region_data.targets);
+        self.record_links(input, Direction::Outgoing, region_data.sources)?;
+        self.record_links(output, Direction::Incoming, region_data.targets)?;
 
         for child in region_data.children {
             self.import_node(*child, node)?;
@@ -819,9 +832,12 @@ impl<'a> Context<'a> {
                     continue;
                 };
 
-                // NOTE: The lookups here are expected to succeed since we only
-                // process the order metadata after we have imported the nodes.
-                let child_node = self.nodes[child_id];
+                // We only process the order metadata after we have imported the
+                // nodes, but some nodes (e.g. symbol imports) do not end up in the Hugr.
+                let child_node = *self
+                    .nodes
+                    .get(child_id)
+                    .ok_or_else(|| error_invalid!("order hint on node {}", child_id))?;
                 let child_optype = self.hugr.get_optype(child_node);
 
                 // Check that the node has order ports.
@@ -1096,7 +1112,7 @@ impl<'a> Context<'a> {
             let exit = self
                 .hugr
                 .add_node_with_parent(node, OpType::ExitBlock(ExitBlock { cfg_outputs }));
-            self.record_links(exit, Direction::Incoming, region_data.targets);
+            self.record_links(exit, Direction::Incoming, region_data.targets)?;
         }
 
         // Finally we import all other nodes.
-- 
2.43.0


From a53aba7d073390bcd1384262d06f7589c6acff17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:11 +0000
Subject: [PATCH 31/73] fix: Replacement accepts adopting from a node without
 children

---
 hugr-core/src/hugr/patch/replace.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hugr-core/src/hugr/patch/replace.rs b/hugr-core/src/hugr/patch/replace.rs
index d28d6d4..39a01ef 100644
--- a/hugr-core/src/hugr/patch/replace.rs
+++ b/hugr-core/src/hugr/patch/replace.rs
@@ -434,7 +434,6 @@ impl<HostNode: HugrNode> PatchHugrMut for Replacement<HostNode> {
         // 6. Transfer to keys of `transfers` children of the corresponding values.
         for (new_parent, &old_parent) in &self.adoptions {
             let new_parent = node_map.get(new_parent).unwrap();
-            debug_assert!(h.children(old_parent).next().is_some());
             while let Some(ch) = h.first_child(old_parent) {
                 h.set_parent(ch, *new_parent);
             }
-- 
2.43.0


From 62bd41521cc6209987ad4a001f241b23a704ea75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:11 +0000
Subject: [PATCH 32/73] fix: SimpleReplacement checks that its boundary is
 dataflow

---
 hugr-core/src/hugr/patch/simple_replace.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/hugr-core/src/hugr/patch/simple_replace.rs b/hugr-core/src/hugr/patch/simple_replace.rs
index 631ba71..2dd114e 100644
--- a/hugr-core/src/hugr/patch/simple_replace.rs
+++ b/hugr-core/src/hugr/patch/simple_replace.rs
@@ -8,7 +8,8 @@ use crate::hugr::views::SiblingSubgraph;
 pub use crate::hugr::views::sibling_subgraph::InvalidReplacement;
 use crate::hugr::{HugrMut, HugrView};
 use crate::ops::{OpTag, OpTrait, OpType};
-use crate::{Hugr, IncomingPort, Node, OutgoingPort, PortIndex};
+use crate::types::EdgeKind;
+use crate::{Hugr, IncomingPort, Node, OutgoingPort, Port, PortIndex};
 
 use itertools::{Either, Itertools};
 
@@ -118,11 +119,13 @@ impl<HostNode: HugrNode> SimpleReplacement<HostNode> {
         // 3. Check that the boundary of the subgraph exists.
         let mut incoming = self.subgraph.incoming_ports().iter().flatten();
         let mut outgoing = self.subgraph.outgoing_ports().iter();
-        if !incoming.all(|&(n, p)| {
+        let is_value = |n: HostNode, p: Port| {
             h.contains_node(n)
-                && h.node_inputs(n).contains(&p)
-                && h.single_linked_output(n, p).is_some()
-        }) || !outgoing.all(|&(n, p)| h.contains_node(n) && h.node_outputs(n).contains(&p))
+                && matches!(h.get_optype(n).port_kind(p), Some(EdgeKind::Value(_)))
+                && h.node_ports(n, p.direction()).contains(&p)
+        };
+        if !incoming.all(|&(n, p)| is_value(n, p.into()) && h.single_linked_output(n, p).is_some())
+            || !outgoing.all(|&(n, p)| is_value(n, p.into()))
         {
             return Err(SimpleReplacementError::InvalidRemovedNode());
         }
-- 
2.43.0


From 0cf26bbb71aecb8be8272ef463a2d0b416ad3c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 33/73] fix: inlining a call of a polymorphic function

---
 hugr-core/src/hugr/patch/inline_call.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hugr-core/src/hugr/patch/inline_call.rs b/hugr-core/src/hugr/patch/inline_call.rs
index fc1107f..afe46d3 100644
--- a/hugr-core/src/hugr/patch/inline_call.rs
+++ b/hugr-core/src/hugr/patch/inline_call.rs
@@ -3,7 +3,7 @@
 use derive_more::{Display, Error};
 
 use crate::core::HugrNode;
-use crate::ops::{DFG, DataflowParent, OpType};
+use crate::ops::{DFG, OpType};
 use crate::types::Substitution;
 use crate::{Direction, HugrView, Node};
 
@@ -78,13 +78,14 @@ impl<N: HugrNode> PatchHugrMut for InlineCall<N> {
         let order_preds = h.linked_outputs(self.0, old_order_in).collect::<Vec<_>>();
         h.disconnect(self.0, old_order_in); // PortGraph currently does this anyway
 
+        // The signature of the call has type arguments substituted already
         let new_op = OpType::from(DFG {
             signature: h
-                .get_optype(orig_func)
-                .as_func_defn()
+                .get_optype(self.0)
+                .as_call()
                 .unwrap()
-                .inner_signature()
-                .into_owned(),
+                .instantiation
+                .clone(),
         });
         let new_order_in = new_op.other_input_port().unwrap();
 
-- 
2.43.0


From b475878580828a406ba2b281d6d015337422ab9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 34/73] fix: inlining a DFG adds only order edges between
 siblings, and those nested uses need

---
 hugr-core/src/hugr/patch/inline_dfg.rs | 54 +++++++++++++++++++++-----
 1 file changed, 45 insertions(+), 9 deletions(-)

diff --git a/hugr-core/src/hugr/patch/inline_dfg.rs b/hugr-core/src/hugr/patch/inline_dfg.rs
index ac49d76..ab7e799 100644
--- a/hugr-core/src/hugr/patch/inline_dfg.rs
+++ b/hugr-core/src/hugr/patch/inline_dfg.rs
@@ -4,7 +4,10 @@
 
 use super::{PatchHugrMut, PatchVerification};
 use crate::core::HugrNode;
+use crate::hugr::HugrMut;
+use crate::ops::OpTrait;
 use crate::ops::handle::{DfgID, NodeHandle};
+use crate::types::EdgeKind;
 use crate::{HugrView, IncomingPort, Node, OutgoingPort, PortIndex};
 
 /// Structure identifying an `InlineDFG` rewrite from the spec
@@ -46,9 +49,11 @@ impl<N: HugrNode> PatchVerification for InlineDFG<N> {
 
     fn invalidated_nodes(
         &self,
-        _: &impl HugrView<Node = Self::Node>,
+        h: &impl HugrView<Node = Self::Node>,
     ) -> impl Iterator<Item = Self::Node> {
-        [self.0.node()].into_iter()
+        let n = self.0.node();
+        let io = h.contains_node(n).then(|| h.get_io(n)).flatten();
+        std::iter::once(n).chain(io.into_iter().flatten())
     }
 }
 
@@ -73,15 +78,21 @@ impl<N: HugrNode> PatchHugrMut for InlineDFG<N> {
         };
         let parent = h.get_parent(n).unwrap();
         let [input, output] = h.get_io(n).unwrap();
-        for ch in h.children(n).skip(2).collect::<Vec<_>>() {
-            h.set_parent(ch, parent);
+        let children = h.children(n).skip(2).collect::<Vec<_>>();
+        for ch in &children {
+            h.set_parent(*ch, parent);
         }
         // DFG Inputs. Deal with Order inputs first
         for (src_n, src_p) in h.linked_outputs(n, oth_in).collect::<Vec<_>>() {
             // Order edge from src_n to DFG => add order edge to each successor of Input node
             debug_assert_eq!(Some(src_p), h.get_optype(src_n).other_output_port());
-            for tgt_n in h.output_neighbours(input).collect::<Vec<_>>() {
-                h.add_other_edge(src_n, tgt_n);
+            // ...or child using (inside it) a value from src_n
+            let tgts = h.output_neighbours(input).chain(h.output_neighbours(src_n));
+            for tgt_n in tgts.collect::<Vec<_>>() {
+                let tgt_n = ancestor_in(h, tgt_n, parent);
+                if tgt_n.is_some_and(|t| children.contains(&t)) {
+                    add_order_edge(h, src_n, tgt_n.unwrap());
+                }
             }
         }
         // And remaining (Value) inputs
@@ -104,14 +115,14 @@ impl<N: HugrNode> PatchHugrMut for InlineDFG<N> {
             }
             // Ensure order-successors of Input node execute after any node producing an input
             for (tgt, _) in &input_ord_succs {
-                h.add_other_edge(src_n, *tgt);
+                add_order_edge(h, src_n, *tgt);
             }
         }
         // DFG Outputs. Deal with Order outputs first.
         for (tgt_n, tgt_p) in h.linked_inputs(n, oth_out).collect::<Vec<_>>() {
             debug_assert_eq!(Some(tgt_p), h.get_optype(tgt_n).other_input_port());
             for src_n in h.input_neighbours(output).collect::<Vec<_>>() {
-                h.add_other_edge(src_n, tgt_n);
+                add_order_edge(h, src_n, tgt_n);
             }
         }
         // And remaining (Value) outputs
@@ -131,7 +142,7 @@ impl<N: HugrNode> PatchHugrMut for InlineDFG<N> {
                 h.connect(src_n, src_p, tgt_n, tgt_p);
                 // Ensure order-predecessors of Output node execute before any node consuming a DFG output
                 for (src, _) in &output_ord_preds {
-                    h.add_other_edge(*src, tgt_n);
+                    add_order_edge(h, *src, tgt_n);
                 }
             }
             h.disconnect(n, outport);
@@ -144,6 +155,31 @@ impl<N: HugrNode> PatchHugrMut for InlineDFG<N> {
     }
 }
 
+/// The ancestor of `node` (or `node` itself) that is a child of `parent`.
+fn ancestor_in<N: HugrNode>(h: &impl HugrView<Node = N>, node: N, parent: N) -> Option<N> {
+    std::iter::successors(Some(node), |&n| h.get_parent(n))
+        .find(|&n| h.get_parent(n) == Some(parent))
+}
+
+/// Adds an order edge, unless it exists already, or the nodes are not siblings
+/// (the value passed between them is then non-local and ordered elsewhere) or
+/// do not have order ports.
+fn add_order_edge<N: HugrNode>(h: &mut impl HugrMut<Node = N>, src: N, tgt: N) {
+    let order = Some(EdgeKind::StateOrder);
+    if src == tgt
+        || h.get_parent(src) != h.get_parent(tgt)
+        || h.get_optype(src).other_output() != order
+        || h.get_optype(tgt).other_input() != order
+    {
+        return;
+    }
+    let src_port = h.get_optype(src).other_output_port().unwrap();
+    let tgt_port = h.get_optype(tgt).other_input_port().unwrap();
+    if !h.linked_inputs(src, src_port).any(|l| l == (tgt, tgt_port)) {
+        h.add_other_edge(src, tgt);
+    }
+}
+
 #[cfg(test)]
 mod test {
     use std::collections::HashSet;
-- 
2.43.0


From 53fdbb02e96c454f64737de5ede7159f625cbec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 35/73] fix: OutlineCfg refuses blocks whose values are used
 outside

---
 hugr-core/src/hugr/patch/outline_cfg.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/hugr-core/src/hugr/patch/outline_cfg.rs b/hugr-core/src/hugr/patch/outline_cfg.rs
index f0d8349..31ed6c4 100644
--- a/hugr-core/src/hugr/patch/outline_cfg.rs
+++ b/hugr-core/src/hugr/patch/outline_cfg.rs
@@ -1,6 +1,7 @@
 //! Rewrite for inserting a CFG-node into the hierarchy containing a subsection
 //! of an existing CFG
 use std::collections::HashSet;
+use std::iter;
 
 use itertools::Itertools;
 use thiserror::Error;
@@ -87,6 +88,16 @@ impl OutlineCfg {
                 Err(ext) => return Err(OutlineCfgError::MultipleExitEdges(n, ext.collect())),
             }
         }
+        // Values computed in the blocks would not be visible outside any more
+        for n in self.blocks.iter().flat_map(|b| h.children(*b)) {
+            for tgt in h.output_neighbours(n) {
+                let mut ancestors = iter::successors(Some(tgt), |a| h.get_parent(*a));
+                let block = ancestors.find(|a| h.get_parent(*a) == Some(cfg_n));
+                if block.is_some_and(|b| !self.blocks.contains(&b)) {
+                    return Err(OutlineCfgError::DominatorEdge(n, tgt));
+                }
+            }
+        }
         match (entry, exit_succ) {
             (Some(e), Some((x, o))) => Ok((e, x, o)),
             (None, _) => Err(OutlineCfgError::NoEntryNode),
@@ -235,6 +246,9 @@ pub enum OutlineCfgError {
     // Note possible TODO: straightforward if all outgoing edges target the same BB
     #[error("Multiple blocks had edges leaving the set - at least {0} and {1}")]
     MultipleExitNodes(Node, Node),
+    /// A value computed inside the set is used by a block outside
+    #[error("The value computed by {0} is used outside the set of blocks, by {1}")]
+    DominatorEdge(Node, Node),
     /// One block had multiple outgoing edges
     #[error("Exit block {0} had edges to multiple external blocks {1:?}")]
     MultipleExitEdges(Node, Vec<Node>),
-- 
2.43.0


From 88a74fceca542b870fb4a7708b2abcde2d480d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 36/73] fix: Replacement invalidates all nodes it depends on

---
 hugr-core/src/hugr/patch/replace.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/hugr-core/src/hugr/patch/replace.rs b/hugr-core/src/hugr/patch/replace.rs
index 39a01ef..d63df61 100644
--- a/hugr-core/src/hugr/patch/replace.rs
+++ b/hugr-core/src/hugr/patch/replace.rs
@@ -353,9 +353,21 @@ impl<HostNode: HugrNode> PatchVerification for Replacement<HostNode> {
 
     fn invalidated_nodes(
         &self,
-        _: &impl HugrView<Node = Self::Node>,
+        h: &impl HugrView<Node = Self::Node>,
     ) -> impl Iterator<Item = Self::Node> {
-        self.removal.iter().copied()
+        // Nodes removed or adopted from, their parent, and the ends of added edges
+        let inp = self.mu_inp.iter().map(|e| e.src);
+        let out = self.mu_out.iter().map(|e| e.tgt);
+        let new = self.mu_new.iter().flat_map(|e| [e.src, e.tgt]);
+        let adopted = self.adoptions.values().copied();
+        let parents = self.removal.iter().filter_map(|&n| h.get_parent(n));
+        (self.removal.iter().copied())
+            .chain(adopted)
+            .chain(parents)
+            .chain(inp)
+            .chain(out)
+            .chain(new)
+            .unique()
     }
 }
 
-- 
2.43.0


From fe6c72e2d3e28b37596adf1d72a49db41d62ecc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 37/73] fix: SiblingSubgraph of a node with several order
 predecessors

---
 hugr-core/src/hugr/views/sibling_subgraph.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/hugr-core/src/hugr/views/sibling_subgraph.rs b/hugr-core/src/hugr/views/sibling_subgraph.rs
index f5342ab..84d9bed 100644
--- a/hugr-core/src/hugr/views/sibling_subgraph.rs
+++ b/hugr-core/src/hugr/views/sibling_subgraph.rs
@@ -780,11 +780,8 @@ fn get_boundary_from_nodes<N: HugrNode>(
 
     let inputs = incoming_edges
         .filter(|&(n, p)| {
-            if !hugr.is_linked(n, p) {
-                return false;
-            }
-            let (out_n, _) = hugr.single_linked_output(n, p).unwrap();
-            !nodes_set.contains(&out_n)
+            hugr.linked_outputs(n, p)
+                .any(|(out_n, _)| !nodes_set.contains(&out_n))
         })
         // Every incoming edge is its own input.
         .map(|p| vec![p])
-- 
2.43.0


From 3cbf925d0861e8581c8256e2a11efb4558eca538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:17 +0000
Subject: [PATCH 38/73] fix: folding integer shifts and rotations by any amount

---
 .../arithmetic/int_ops/const_fold.rs          | 25 ++++++++++++++++---
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
index faad176..0ad0040 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
@@ -36,6 +36,22 @@ fn bitmask_from_width(width: u64) -> u64 {
     }
 }
 
+/// Shift left, by any amount
+fn shl(n: u64, k: u64) -> u64 {
+    u32::try_from(k)
+        .ok()
+        .and_then(|k| n.checked_shl(k))
+        .unwrap_or(0)
+}
+
+/// Shift right, by any amount
+fn shr(n: u64, k: u64) -> u64 {
+    u32::try_from(k)
+        .ok()
+        .and_then(|k| n.checked_shr(k))
+        .unwrap_or(0)
+}
+
 fn bitmask_from_logwidth(logwidth: u8) -> u64 {
     bitmask_from_width(1u64 << logwidth)
 }
@@ -1038,7 +1054,7 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             Value::extension(
                                 ConstInt::new_u(
                                     logwidth0,
-                                    (n0.value_u() << n1.value_u())
+                                    shl(n0.value_u(), n1.value_u())
                                         & bitmask_from_logwidth(logwidth0),
                                 )
                                 .unwrap(),
@@ -1063,7 +1079,8 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                         Some(vec![(
                             0.into(),
                             Value::extension(
-                                ConstInt::new_u(logwidth0, n0.value_u() >> n1.value_u()).unwrap(),
+                                ConstInt::new_u(logwidth0, shr(n0.value_u(), n1.value_u()))
+                                    .unwrap(),
                             ),
                         )])
                     }
@@ -1090,7 +1107,7 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             Value::extension(
                                 ConstInt::new_u(
                                     logwidth0,
-                                    ((n << k) & bitmask_from_width(w)) | (n >> (w - k)),
+                                    (shl(n, k) & bitmask_from_width(w)) | shr(n, w - k),
                                 )
                                 .unwrap(),
                             ),
@@ -1119,7 +1136,7 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             Value::extension(
                                 ConstInt::new_u(
                                     logwidth0,
-                                    ((n << (w - k)) & bitmask_from_width(w)) | (n >> k),
+                                    (shl(n, w - k) & bitmask_from_width(w)) | shr(n, k),
                                 )
                                 .unwrap(),
                             ),
-- 
2.43.0


From f5be499fe75b4d98f3ce729cbff90542c0ad13d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 39/73] fix: checked integer division folds to a result, and
 the most negative integer divides correctly

---
 .../arithmetic/int_ops/const_fold.rs          | 46 +++++++++++++------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
index 0ad0040..65e340a 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
@@ -7,7 +7,7 @@ use crate::{
     IncomingPort,
     extension::{
         ConstFoldResult, Folder, OpDef,
-        prelude::{ConstError, sum_with_error},
+        prelude::{ConstError, const_ok, error_type, sum_with_error},
     },
     ops::{
         Value,
@@ -79,7 +79,7 @@ fn divmod_s(n: i64, m: u64) -> (i64, u64) {
         if r == 0 {
             (q, 0)
         } else {
-            (q - 1, (m_s - r) as u64)
+            (q - 1, (m_s + r) as u64)
         }
     } else {
         // n = -2^63, m >= 2^63
@@ -617,10 +617,13 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                         } else {
                             let qval = nval / mval;
                             let rval = nval % mval;
-                            Value::tuple(vec![
-                                Value::extension(ConstInt::new_u(logwidth0, qval).unwrap()),
-                                Value::extension(ConstInt::new_u(logwidth0, rval).unwrap()),
-                            ])
+                            const_ok(
+                                Value::tuple(vec![
+                                    Value::extension(ConstInt::new_u(logwidth0, qval).unwrap()),
+                                    Value::extension(ConstInt::new_u(logwidth0, rval).unwrap()),
+                                ]),
+                                error_type(),
+                            )
                         };
                         Some(vec![(0.into(), out_const)])
                     }
@@ -677,10 +680,13 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             err_value()
                         } else {
                             let (qval, rval) = divmod_s(nval, mval);
-                            Value::tuple(vec![
-                                Value::extension(ConstInt::new_s(logwidth0, qval).unwrap()),
-                                Value::extension(ConstInt::new_u(logwidth0, rval).unwrap()),
-                            ])
+                            const_ok(
+                                Value::tuple(vec![
+                                    Value::extension(ConstInt::new_s(logwidth0, qval).unwrap()),
+                                    Value::extension(ConstInt::new_u(logwidth0, rval).unwrap()),
+                                ]),
+                                error_type(),
+                            )
                         };
                         Some(vec![(0.into(), out_const)])
                     }
@@ -734,7 +740,10 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                         let out_const: Value = if mval == 0 {
                             err_value()
                         } else {
-                            Value::extension(ConstInt::new_u(logwidth0, nval / mval).unwrap())
+                            const_ok(
+                                Value::extension(ConstInt::new_u(logwidth0, nval / mval).unwrap()),
+                                error_type(),
+                            )
                         };
                         Some(vec![(0.into(), out_const)])
                     }
@@ -786,7 +795,10 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                         let out_const: Value = if mval == 0 {
                             err_value()
                         } else {
-                            Value::extension(ConstInt::new_u(logwidth0, nval % mval).unwrap())
+                            const_ok(
+                                Value::extension(ConstInt::new_u(logwidth0, nval % mval).unwrap()),
+                                error_type(),
+                            )
                         };
                         Some(vec![(0.into(), out_const)])
                     }
@@ -839,7 +851,10 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             err_value()
                         } else {
                             let (qval, _) = divmod_s(nval, mval);
-                            Value::extension(ConstInt::new_s(logwidth0, qval).unwrap())
+                            const_ok(
+                                Value::extension(ConstInt::new_s(logwidth0, qval).unwrap()),
+                                error_type(),
+                            )
                         };
                         Some(vec![(0.into(), out_const)])
                     }
@@ -893,7 +908,10 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             err_value()
                         } else {
                             let (_, rval) = divmod_s(nval, mval);
-                            Value::extension(ConstInt::new_u(logwidth0, rval).unwrap())
+                            const_ok(
+                                Value::extension(ConstInt::new_u(logwidth0, rval).unwrap()),
+                                error_type(),
+                            )
                         };
                         Some(vec![(0.into(), out_const)])
                     }
-- 
2.43.0


From 0300d3d8c3488ad7637eb2acc749bd5188c99cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 40/73] fix: constant folding of functions called from outside,
 of declared functions and of polymorphic functions

---
 hugr-passes/src/const_fold.rs       | 37 ++++++++++++++++++++---------
 hugr-passes/src/dataflow/datalog.rs | 29 ++++++++++++++++++++--
 2 files changed, 53 insertions(+), 13 deletions(-)

diff --git a/hugr-passes/src/const_fold.rs b/hugr-passes/src/const_fold.rs
index 82caf3d..26e5209 100644
--- a/hugr-passes/src/const_fold.rs
+++ b/hugr-passes/src/const_fold.rs
@@ -2,7 +2,10 @@
 //! An (example) use of the [dataflow analysis framework](super::dataflow).
 
 pub mod value_handle;
-use std::{collections::HashMap, sync::Arc};
+use std::{
+    collections::{HashMap, HashSet},
+    sync::Arc,
+};
 use thiserror::Error;
 
 use hugr_core::{
@@ -123,7 +126,13 @@ impl<H: HugrMut<Node = Node> + 'static> ComposablePass<H> for ConstantFoldPass {
         }
 
         let results = m.run(ConstFoldContext, []);
-        let mb_root_inp = hugr.get_io(hugr.entrypoint()).map(|[i, _]| i);
+        let external_inps: HashSet<Node> = self
+            .inputs
+            .keys()
+            .copied()
+            .chain([hugr.entrypoint()])
+            .filter_map(|n| hugr.get_io(n).map(|[i, _]| i))
+            .collect();
 
         let wires_to_break = hugr
             .entry_descendants()
@@ -134,16 +143,22 @@ impl<H: HugrMut<Node = Node> + 'static> ComposablePass<H> for ConstantFoldPass {
             })
             .filter_map(|(n, ip)| {
                 let (src, outp) = hugr.single_linked_output(n, ip).unwrap();
+                let Some(EdgeKind::Value(ty)) = hugr.get_optype(n).port_kind(ip) else {
+                    return None;
+                };
                 // Avoid breaking edges from existing LoadConstant (we'd only add another)
-                // or from root input node (any "external inputs" provided will show up here
-                //   - potentially also in other places which this won't catch)
-                (!hugr.get_optype(src).is_load_constant() && Some(src) != mb_root_inp).then_some((
-                    n,
-                    ip,
-                    results
-                        .try_read_wire_concrete::<Value>(Wire::new(src, outp))
-                        .ok()?,
-                ))
+                // or from input nodes of the root or other entry points (any "external inputs"
+                //   provided will show up here - potentially also in other places which this
+                //   won't catch)
+                if hugr.get_optype(src).is_load_constant() || external_inps.contains(&src) {
+                    return None;
+                }
+                let v = results
+                    .try_read_wire_concrete::<Value>(Wire::new(src, outp))
+                    .ok()?;
+                // A value known for all calls of a polymorphic function may have a type
+                // that the function itself does not know.
+                (v.get_type() == ty).then_some((n, ip, v))
             })
             .collect::<Vec<_>>();
         // Sadly the results immutably borrow the hugr, so we must extract everything we need before mutation
diff --git a/hugr-passes/src/dataflow/datalog.rs b/hugr-passes/src/dataflow/datalog.rs
index 0368f93..d76b03c 100644
--- a/hugr-passes/src/dataflow/datalog.rs
+++ b/hugr-passes/src/dataflow/datalog.rs
@@ -28,12 +28,17 @@ type NodeInputs<V, N> = Vec<(IncomingPort, PV<V, N>)>;
 ///    [`Self::prepopulate_inputs`] can be used on each externally-callable
 ///    [`FuncDefn`](OpType::FuncDefn) to set all inputs to [`PartialValue::Top`].
 /// 3. Call [`Self::run`] to produce [`AnalysisResults`]
-pub struct Machine<H: HugrView, V: AbstractValue>(H, HashMap<H::Node, NodeInputs<V, H::Node>>);
+pub struct Machine<H: HugrView, V: AbstractValue>(
+    H,
+    HashMap<H::Node, NodeInputs<V, H::Node>>,
+    // Values for the wires themselves
+    Vec<OutWire<V, H::Node>>,
+);
 
 impl<H: HugrView, V: AbstractValue> Machine<H, V> {
     /// Create a new Machine to analyse the given Hugr(View)
     pub fn new(hugr: H) -> Self {
-        Self(hugr, Default::default())
+        Self(hugr, Default::default(), Vec::new())
     }
 }
 
@@ -44,6 +49,7 @@ impl<H: HugrView, V: AbstractValue> Machine<H, V> {
         for (n, inp) in self.0.linked_inputs(w.node(), w.source()) {
             self.1.entry(n).or_default().push((inp, v.clone()));
         }
+        self.2.push((w.node(), w.source(), v));
     }
 
     /// Provide initial values for the inputs to a container node
@@ -138,16 +144,19 @@ impl<H: HugrView, V: AbstractValue> Machine<H, V> {
                 .into_iter()
                 .flat_map(|(n, vals)| vals.into_iter().map(move |(ip, v)| (n, ip, v)))
                 .collect(),
+            self.2,
         )
     }
 }
 
 pub(super) type InWire<V, N> = (N, IncomingPort, PartialValue<V, N>);
+pub(super) type OutWire<V, N> = (N, OutgoingPort, PartialValue<V, N>);
 
 pub(super) fn run_datalog<V: AbstractValue, H: HugrView>(
     mut ctx: impl DFContext<V, Node = H::Node>,
     hugr: H,
     in_wire_value_proto: Vec<InWire<V, H::Node>>,
+    out_wire_value_proto: Vec<OutWire<V, H::Node>>,
 ) -> AnalysisResults<V, H> {
     // ascent-(macro-)generated code generates a bunch of warnings,
     // keep code in here to a minimum.
@@ -200,6 +209,10 @@ pub(super) fn run_datalog<V: AbstractValue, H: HugrView>(
           if let Some(sig) = hugr.signature(*n),
           if sig.input_ports().contains(p);
 
+        // Prepopulate out_wire_value from out_wire_value_proto.
+        out_wire_value(n, p, v) <-- for (n, p, v) in &out_wire_value_proto,
+          out_wire(n, p);
+
         // Assemble node_in_value_row from in_wire_value's
         node_in_value_row(n, ValueRow::new(sig.input_count())) <-- node(n), if let Some(sig) = hugr.signature(*n);
         node_in_value_row(n, ValueRow::new(hugr.signature(*n).unwrap().input_count()).set(p.index(), v.clone())) <-- in_wire_value(n, p, v);
@@ -338,6 +351,12 @@ pub(super) fn run_datalog<V: AbstractValue, H: HugrView>(
             output_child(func, outp),
             in_wire_value(outp, p, v);
 
+        // We know nothing of the results of a function that is only declared
+        out_wire_value(call, p, PV::Top) <--
+            func_call(call, func),
+            if hugr.get_optype(*func).is_func_decl(),
+            out_wire(call, p);
+
         // CallIndirect --------------------
         lattice indirect_call(H::Node, LatticeWrapper<H::Node>); // <Node> is an `IndirectCall` to `FuncDefn` <Node>
         indirect_call(call, tgt) <--
@@ -359,6 +378,12 @@ pub(super) fn run_datalog<V: AbstractValue, H: HugrView>(
             output_child(func, outp),
             in_wire_value(outp, p, v);
 
+        out_wire_value(call, p, PV::Top) <--
+            indirect_call(call, lv),
+            if let LatticeWrapper::Value(func) = lv,
+            if hugr.get_optype(*func).is_func_decl(),
+            out_wire(call, p);
+
         // Default out-value is Bottom, but if we can't determine the called function,
         // assign everything to Top
         out_wire_value(call, p, PV::Top) <--
-- 
2.43.0


From 015a9f95606fff1f345e9083a49b160c21afdfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:32 +0000
Subject: [PATCH 41/73] fix: making edges local with dominator edges, edges
 from Input nodes, type variables and unreachable blocks

---
 hugr-passes/src/non_local.rs          |   4 +-
 hugr-passes/src/non_local/localize.rs | 182 +++++++++++++++++++-------
 2 files changed, 137 insertions(+), 49 deletions(-)

diff --git a/hugr-passes/src/non_local.rs b/hugr-passes/src/non_local.rs
index c8f5e85..a3471fb 100644
--- a/hugr-passes/src/non_local.rs
+++ b/hugr-passes/src/non_local.rs
@@ -110,10 +110,10 @@ pub fn remove_nonlocal_edges<H: HugrMut>(hugr: &mut H) -> Result<(), LocalizeEdg
 
     debug_assert!(nonlocal_edges.iter().all(|(n, (source, _))| {
         let source_parent = hugr.get_parent(source.node()).unwrap();
-        let source_gp = hugr.get_parent(source_parent);
+        // Only up to a CFG, which does not need a source if the block needing it is unreachable.
         ancestors(*n, hugr)
             .skip(1)
-            .take_while(|&a| a != source_parent && source_gp.is_none_or(|gp| a != gp))
+            .take_while(|&a| a != source_parent && !hugr.get_optype(a).is_cfg())
             .all(|parent| needs_sources_map.parent_needs(parent, *source))
     }));
 
diff --git a/hugr-passes/src/non_local/localize.rs b/hugr-passes/src/non_local/localize.rs
index 15f5ded..dae2e88 100644
--- a/hugr-passes/src/non_local/localize.rs
+++ b/hugr-passes/src/non_local/localize.rs
@@ -3,12 +3,13 @@
 use std::collections::{BTreeMap, HashMap};
 
 use hugr_core::{
-    Direction, HugrView, IncomingPort, Wire,
-    builder::{ConditionalBuilder, Dataflow, DataflowSubContainer, HugrBuilder},
+    Direction, HugrView, IncomingPort, PortIndex, Wire,
     core::HugrNode,
     hugr::hugrmut::HugrMut,
-    ops::{DataflowOpTrait, OpType, Tag, TailLoop},
-    types::{EdgeKind, Type, TypeRow},
+    ops::{
+        Case, Conditional, DataflowOpTrait, Input, OpType, Output, Tag, TailLoop, dataflow::IOTrait,
+    },
+    types::{EdgeKind, Signature, Type, TypeRow},
 };
 use itertools::Itertools as _;
 
@@ -19,6 +20,44 @@ use super::just_types;
 // as extra inputs to that container, to the Type of each.
 pub(super) struct ExtraSourceReqs<N: HugrNode>(BTreeMap<N, BTreeMap<Wire<N>, Type>>);
 
+/// Ports inserted into Input nodes. The sources in [ExtraSourceReqs] are numbered as
+/// they were before any insertions.
+struct Insertions<N: HugrNode>(HashMap<N, (usize, usize)>);
+
+impl<N: HugrNode> Default for Insertions<N> {
+    fn default() -> Self {
+        Self(HashMap::new())
+    }
+}
+
+impl<N: HugrNode> Insertions<N> {
+    /// Record that `count` outgoing ports have been inserted at `index` (only once per node)
+    fn insert(&mut self, node: N, index: usize, count: usize) {
+        let previous = self.0.insert(node, (index, count));
+        debug_assert!(previous.is_none());
+    }
+
+    /// The wire now, given the wire before any ports were inserted
+    fn current(&self, w: Wire<N>) -> Wire<N> {
+        match self.0.get(&w.node()) {
+            Some((start, count)) if w.source().index() >= *start => {
+                Wire::new(w.node(), w.source().index() + count)
+            }
+            _ => w,
+        }
+    }
+
+    /// The wire before any ports were inserted, given the wire now (and not itself inserted)
+    fn original(&self, w: Wire<N>) -> Wire<N> {
+        match self.0.get(&w.node()) {
+            Some((start, count)) if w.source().index() >= start + count => {
+                Wire::new(w.node(), w.source().index() - count)
+            }
+            _ => w,
+        }
+    }
+}
+
 impl<N: HugrNode> Default for ExtraSourceReqs<N> {
     fn default() -> Self {
         Self(BTreeMap::default())
@@ -86,7 +125,12 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
 
     /// Threads the extra connections required throughout the Hugr
     pub(super) fn thread_hugr(&self, hugr: &mut impl HugrMut<Node = N>) {
-        self.thread_node(hugr, hugr.entrypoint(), &HashMap::new())
+        self.thread_node(
+            hugr,
+            hugr.entrypoint(),
+            &HashMap::new(),
+            &mut Insertions::default(),
+        )
     }
 
     // keys of `locals` are the *original* sources of the non-local edges, in self.0.
@@ -95,11 +139,18 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
         hugr: &mut impl HugrMut<Node = N>,
         node: N,
         locals: &HashMap<Wire<N>, Wire<N>>,
+        insertions: &mut Insertions<N>,
     ) {
         if self.get(node).next().is_none() {
             // No edges incoming into this subtree, but there could still be nonlocal edges internal to it
+            let is_cfg = hugr.get_optype(node).is_cfg();
             for ch in hugr.children(node).collect::<Vec<_>>() {
-                self.thread_node(hugr, ch, &HashMap::new())
+                if is_cfg && hugr.get_optype(ch).is_dataflow_block() {
+                    // There may be edges from dominating blocks, or blocks that must pass them on
+                    self.thread_bb(hugr, ch, insertions)
+                } else {
+                    self.thread_node(hugr, ch, &HashMap::new(), insertions)
+                }
             }
             return;
         }
@@ -114,19 +165,19 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
                 let start_new_port_index = ins.len();
                 ins.extend(just_types(&sources));
 
-                self.thread_dataflow_parent(hugr, node, start_new_port_index, sources);
+                self.thread_dataflow_parent(hugr, node, start_new_port_index, sources, insertions);
                 start_new_port_index
             }
             OpType::Conditional(cond) => {
                 let start_new_port_index = cond.signature().input.len();
                 cond.other_inputs.to_mut().extend(just_types(&sources));
 
-                self.thread_conditional(hugr, node, sources);
+                self.thread_conditional(hugr, node, sources, insertions);
                 start_new_port_index
             }
             OpType::TailLoop(tail_op) => {
                 vec_prepend(tail_op.just_inputs.to_mut(), just_types(&sources));
-                self.thread_tailloop(hugr, node, sources);
+                self.thread_tailloop(hugr, node, sources, insertions);
                 0
             }
             OpType::CFG(cfg) => {
@@ -138,7 +189,7 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
                 ); // Entry node
                 for bb in hugr.children(node).collect::<Vec<_>>() {
                     if hugr.get_optype(bb).is_dataflow_block() {
-                        self.thread_bb(hugr, bb);
+                        self.thread_bb(hugr, bb, insertions);
                     }
                 }
                 0
@@ -154,7 +205,12 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
             start_new_port_index,
             src_wires.len(),
         );
-        let local_srcs = src_wires.into_iter().map(|w| *locals.get(&w).unwrap_or(&w));
+        let local_srcs = src_wires.into_iter().map(|w| {
+            locals
+                .get(&w)
+                .copied()
+                .unwrap_or_else(|| insertions.current(w))
+        });
         for (w, tgt_port) in local_srcs.zip_eq(new_dfg_ports) {
             assert_eq!(hugr.get_parent(w.node()), hugr.get_parent(node));
             hugr.connect(w.node(), w.source(), node, tgt_port)
@@ -168,6 +224,7 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
         node: N,
         start_new_port_index: usize,
         srcs: Vec<(Wire<N>, Type)>,
+        insertions: &mut Insertions<N>,
     ) -> HashMap<Wire<N>, Wire<N>> {
         let nlocals = if srcs.is_empty() {
             HashMap::new()
@@ -180,6 +237,7 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
             vec_insert(in_op.types.to_mut(), tys, start_new_port_index);
             let new_outports =
                 hugr.insert_ports(inp, Direction::Outgoing, start_new_port_index, srcs.len());
+            insertions.insert(inp, start_new_port_index, srcs.len());
 
             srcs.into_iter()
                 .zip_eq(new_outports)
@@ -190,13 +248,17 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
             for (inp, _) in hugr.in_value_types(ch).collect::<Vec<_>>() {
                 if let Some((src_n, src_p)) = hugr.single_linked_output(ch, inp) {
                     if hugr.get_parent(src_n) != Some(node) {
+                        let source = insertions.original(Wire::new(src_n, src_p));
+                        let Some(new_p) = nlocals.get(&source) else {
+                            // From outside the entrypoint, so stays nonlocal
+                            continue;
+                        };
                         hugr.disconnect(ch, inp);
-                        let new_p = nlocals.get(&Wire::new(src_n, src_p)).unwrap();
                         hugr.connect(new_p.node(), new_p.source(), ch, inp);
                     }
                 }
             }
-            self.thread_node(hugr, ch, &nlocals);
+            self.thread_node(hugr, ch, &nlocals, insertions);
         }
         nlocals
     }
@@ -207,6 +269,7 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
         hugr: &mut impl HugrMut<Node = N>,
         node: N,
         srcs: Vec<(Wire<N>, Type)>,
+        insertions: &mut Insertions<N>,
     ) {
         for case in hugr.children(node).collect::<Vec<_>>() {
             let OpType::Case(case_op) = hugr.optype_mut(case) else {
@@ -215,7 +278,13 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
             let ins = case_op.signature.input.to_mut();
             let start_case_port_index = ins.len();
             ins.extend(just_types(&srcs));
-            self.thread_dataflow_parent(hugr, case, start_case_port_index, srcs.clone());
+            self.thread_dataflow_parent(
+                hugr,
+                case,
+                start_case_port_index,
+                srcs.clone(),
+                insertions,
+            );
         }
     }
 
@@ -225,25 +294,34 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
         hugr: &mut impl HugrMut<Node = N>,
         node: N,
         srcs: Vec<(Wire<N>, Type)>,
+        insertions: &mut Insertions<N>,
     ) {
         let [_, o] = hugr.get_io(node).unwrap();
         let new_sum_row_prefixes = {
             let mut v = vec![vec![]; 2];
-            v[TailLoop::CONTINUE_TAG] = srcs.clone();
+            v[TailLoop::CONTINUE_TAG] = srcs
+                .iter()
+                .map(|(w, t)| (insertions.current(*w), t.clone()))
+                .collect();
             v
         };
         add_control_prefixes(hugr, o, new_sum_row_prefixes);
-        self.thread_dataflow_parent(hugr, node, 0, srcs);
+        self.thread_dataflow_parent(hugr, node, 0, srcs, insertions);
     }
 
     // Add to DataflowBlock *and* inner dataflow sibling subgraph
-    fn thread_bb(&self, hugr: &mut impl HugrMut<Node = N>, node: N) {
+    fn thread_bb(
+        &self,
+        hugr: &mut impl HugrMut<Node = N>,
+        node: N,
+        insertions: &mut Insertions<N>,
+    ) {
         let OpType::DataflowBlock(this_dfb) = hugr.optype_mut(node) else {
             panic!("Expected dataflow block")
         };
         let my_inputs: Vec<_> = self.get(node).map(|(w, t)| (*w, t.clone())).collect();
         vec_prepend(this_dfb.inputs.to_mut(), just_types(&my_inputs));
-        let locals = self.thread_dataflow_parent(hugr, node, 0, my_inputs);
+        let locals = self.thread_dataflow_parent(hugr, node, 0, my_inputs, insertions);
         let variant_source_prefixes: Vec<Vec<(Wire<N>, Type)>> = hugr
             .output_neighbours(node)
             .map(|succ| {
@@ -252,7 +330,7 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
                     .map(|(w, ty)| {
                         (
                             if hugr.get_parent(w.node()) == Some(node) {
-                                *w
+                                insertions.current(*w)
                             } else {
                                 *locals.get(w).unwrap()
                             },
@@ -262,6 +340,9 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
                     .collect()
             })
             .collect();
+        if variant_source_prefixes.iter().all(Vec::is_empty) {
+            return;
+        }
         let OpType::DataflowBlock(this_dfb) = hugr.optype_mut(node) else {
             panic!("It worked earlier!")
         };
@@ -286,7 +367,7 @@ fn add_control_prefixes<H: HugrMut>(
     debug_assert!(hugr.get_optype(output_node).is_output()); // Just to fail fast
     let parent = hugr.get_parent(output_node).unwrap();
     let mut needed_sources = BTreeMap::new();
-    let (cond, new_control_type) = {
+    let (cond_node, new_control_type) = {
         let Some(EdgeKind::Value(control_type)) = hugr
             .get_optype(output_node)
             .port_kind(IncomingPort::from(0))
@@ -320,36 +401,43 @@ fn add_control_prefixes<H: HugrMut>(
                 .collect_vec();
 
         let new_control_type = Type::new_sum(new_sum_rows.clone());
-        let mut cond = ConditionalBuilder::new(
-            old_sum_rows.clone(),
-            just_types(needed_sources.values()).collect_vec(),
-            new_control_type.clone(),
-        )
-        .unwrap();
+        let other_inputs: TypeRow = just_types(needed_sources.values()).collect_vec().into();
+        // Not using a builder, as the types may have variables bound by the enclosing function
+        let cond_node = hugr.add_node_with_parent(
+            parent,
+            Conditional {
+                sum_rows: old_sum_rows.clone(),
+                other_inputs: other_inputs.clone(),
+                outputs: vec![new_control_type.clone()].into(),
+            },
+        );
         for (i, new_sources) in variant_source_prefixes.into_iter().enumerate() {
-            let mut case = cond.case_builder(i).unwrap();
-            let case_inputs = case.input_wires().collect_vec();
-            let mut args = new_sources
-                .into_iter()
-                .map(|(s, _ty)| {
-                    case_inputs[old_sum_rows[i].len()
-                        + needed_sources
-                            .iter()
-                            .find_position(|(w, _)| **w == s)
-                            .unwrap()
-                            .0]
-                })
-                .collect_vec();
-            args.extend(&case_inputs[..old_sum_rows[i].len()]);
-            let case_outputs = case
-                .add_dataflow_op(Tag::new(i, new_sum_rows.clone()), args)
-                .unwrap()
-                .outputs();
-            case.finish_with_outputs(case_outputs).unwrap();
+            let inputs: TypeRow = old_sum_rows[i]
+                .iter()
+                .chain(other_inputs.iter())
+                .cloned()
+                .collect_vec()
+                .into();
+            let signature = Signature::new(inputs.clone(), vec![new_control_type.clone()]);
+            let case = hugr.add_node_with_parent(cond_node, Case { signature });
+            let inp = hugr.add_node_with_parent(case, Input::new(inputs));
+            let outp = hugr.add_node_with_parent(case, Output::new(vec![new_control_type.clone()]));
+            let tag = hugr.add_node_with_parent(case, Tag::new(i, new_sum_rows.clone()));
+            let new_args = new_sources.iter().map(|(s, _ty)| {
+                old_sum_rows[i].len()
+                    + needed_sources
+                        .iter()
+                        .find_position(|(w, _)| *w == s)
+                        .unwrap()
+                        .0
+            });
+            for (tgt_port, src_port) in new_args.chain(0..old_sum_rows[i].len()).enumerate() {
+                hugr.connect(inp, src_port, tag, tgt_port);
+            }
+            hugr.connect(tag, 0, outp, 0);
         }
-        (cond.finish_hugr().unwrap(), new_control_type)
+        (cond_node, new_control_type)
     };
-    let cond_node = hugr.insert_hugr(parent, cond).inserted_entrypoint;
     let (old_output_source_node, old_output_source_port) =
         hugr.single_linked_output(output_node, 0).unwrap();
     debug_assert_eq!(hugr.get_parent(old_output_source_node).unwrap(), parent);
-- 
2.43.0


From fdc81a77a73eff2664ca484753763e9b3d260854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:32 +0000
Subject: [PATCH 42/73] fix: untupling with unused or repeated outputs, in
 nested regions and polymorphic functions

---
 hugr-passes/src/untuple.rs | 125 +++++++++++++++++--------------------
 1 file changed, 56 insertions(+), 69 deletions(-)

diff --git a/hugr-passes/src/untuple.rs b/hugr-passes/src/untuple.rs
index 27a1f1f..2d5a049 100644
--- a/hugr-passes/src/untuple.rs
+++ b/hugr-passes/src/untuple.rs
@@ -2,15 +2,17 @@
 
 use std::collections::VecDeque;
 
-use hugr_core::builder::{DFGBuilder, Dataflow, DataflowHugr};
+#[cfg(test)]
+use hugr_core::builder::DataflowHugr;
+use hugr_core::builder::{Container, DFGBuilder, Dataflow};
 use hugr_core::extension::prelude::{MakeTuple, UnpackTuple};
 use hugr_core::hugr::SimpleReplacementError;
 use hugr_core::hugr::hugrmut::HugrMut;
 use hugr_core::hugr::views::SiblingSubgraph;
-use hugr_core::hugr::views::sibling_subgraph::TopoConvexChecker;
+use hugr_core::hugr::views::sibling_subgraph::{InvalidSubgraph, TopoConvexChecker};
 use hugr_core::ops::{OpTrait, OpType};
 use hugr_core::types::Type;
-use hugr_core::{HugrView, Node, SimpleReplacement};
+use hugr_core::{HugrView, Node, PortIndex, SimpleReplacement};
 use itertools::Itertools;
 
 use crate::ComposablePass;
@@ -105,10 +107,9 @@ impl UntuplePass {
         let mut children_queue = VecDeque::new();
         children_queue.push_back(parent);
 
-        // Required to create SimpleReplacements.
-        let mut convex_checker: Option<TopoConvexChecker<H>> = None;
-
         while let Some(parent) = children_queue.pop_front() {
+            // Required to create SimpleReplacements.
+            let mut convex_checker: Option<TopoConvexChecker<H>> = None;
             for node in hugr.children(parent) {
                 let op = hugr.get_optype(node);
                 if let Some(rw) = make_rewrite(hugr, &mut convex_checker, node, op) {
@@ -175,7 +176,7 @@ fn make_rewrite<'h, T: HugrView>(
         .map(|(neigh, _)| neigh)
         .collect_vec();
 
-    let unpack_nodes = links
+    let mut unpack_nodes = links
         .iter()
         .filter(|&&neigh| hugr.get_parent(neigh) == node_parent)
         .filter(|&&neigh| is_unpack_tuple(hugr.get_optype(neigh)))
@@ -188,76 +189,62 @@ fn make_rewrite<'h, T: HugrView>(
     }
 
     // Remove all unpack operations, and remove the pack operation if all neighbours are unpacks.
-    let num_other_outputs = links.len() - unpack_nodes.len();
-    Some(remove_pack_unpack(
-        hugr,
-        convex_checker,
-        &tuple_types,
-        node,
-        unpack_nodes,
-        num_other_outputs,
-    ))
+    let checker =
+        convex_checker.get_or_insert_with(|| TopoConvexChecker::new(hugr, node_parent.unwrap()));
+    let mut subgraph = |unpack_nodes: &[T::Node]| {
+        let nodes = [unpack_nodes, &[node]].concat();
+        SiblingSubgraph::try_from_nodes_with_checker(nodes, hugr, checker)
+    };
+    let subcirc = match subgraph(&unpack_nodes) {
+        // Unused unpack operations are not part of the subgraph given by the boundary
+        Err(InvalidSubgraph::NotConvex) => {
+            unpack_nodes.retain(|&n| hugr.output_neighbours(n).next().is_some());
+            if unpack_nodes.is_empty() {
+                return None;
+            }
+            subgraph(&unpack_nodes)
+        }
+        subcirc => subcirc,
+    }
+    .unwrap();
+
+    Some(remove_pack_unpack(hugr, &tuple_types, node, subcirc))
 }
 
-/// Returns a rewrite to remove a tuple pack operation that's followed by unpack operations,
-/// and `other_tuple_links` other operations.
-fn remove_pack_unpack<'h, T: HugrView>(
-    hugr: &'h T,
-    convex_checker: &mut Option<TopoConvexChecker<'h, T>>,
+/// Returns a rewrite to remove a subgraph of a tuple pack operation that's followed by unpack
+/// operations, and possibly other operations outside the subgraph.
+fn remove_pack_unpack<T: HugrView>(
+    hugr: &T,
     tuple_types: &[Type],
     pack_node: T::Node,
-    unpack_nodes: Vec<T::Node>,
-    num_other_outputs: usize,
+    subcirc: SiblingSubgraph<T::Node>,
 ) -> SimpleReplacement<T::Node> {
-    let num_unpack_outputs = tuple_types.len() * unpack_nodes.len();
-
-    let parent = hugr.get_parent(pack_node).expect("pack_node has no parent");
-    let checker = convex_checker.get_or_insert_with(|| TopoConvexChecker::new(hugr, parent));
-
-    let mut nodes = unpack_nodes;
-    nodes.push(pack_node);
-    let subcirc = SiblingSubgraph::try_from_nodes_with_checker(nodes, hugr, checker).unwrap();
-    let subcirc_signature = subcirc.signature(hugr);
-
-    // The output port order in `SiblingSubgraph::try_from_nodes` is not too well defined.
-    // Check that the outputs are in the expected order.
-    debug_assert!(
-        itertools::equal(
-            subcirc_signature.output().iter(),
-            tuple_types
-                .iter()
-                .cycle()
-                .take(num_unpack_outputs)
-                .chain(itertools::repeat_n(
-                    &Type::new_tuple(tuple_types.to_vec()),
-                    num_other_outputs
-                ))
-        ),
-        "Unpacked tuple values must come before tupled values"
-    );
-
-    let mut replacement = DFGBuilder::new(subcirc_signature).unwrap();
-    let mut outputs = Vec::with_capacity(num_unpack_outputs + num_other_outputs);
-
-    // Wire the inputs directly to the unpack outputs
-    outputs.extend(replacement.input_wires().cycle().take(num_unpack_outputs));
-
-    // If needed, re-add the tuple pack node and connect its output to the tuple outputs.
-    if num_other_outputs > 0 {
-        let op = MakeTuple::new(tuple_types.to_vec().into());
-        let [tuple] = replacement
-            .add_dataflow_op(op, replacement.input_wires())
-            .unwrap()
-            .outputs_arr();
-        outputs.extend(std::iter::repeat_n(tuple, num_other_outputs));
+    let mut replacement = DFGBuilder::new(subcirc.signature(hugr)).unwrap();
+
+    // Wire the inputs directly to the unpack outputs. If the tuple has other uses, re-add the
+    // tuple pack node and connect its output.
+    let mut tuple = None;
+    let mut outputs = Vec::with_capacity(subcirc.outgoing_ports().len());
+    for &(n, p) in subcirc.outgoing_ports() {
+        outputs.push(if n == pack_node {
+            *tuple.get_or_insert_with(|| {
+                let op = MakeTuple::new(tuple_types.to_vec().into());
+                replacement
+                    .add_dataflow_op(op, replacement.input_wires())
+                    .unwrap()
+                    .out_wire(0)
+            })
+        } else {
+            replacement.input_wires().nth(p.index()).unwrap()
+        });
     }
 
     // These should never fail, as we are defining the replacement ourselves.
-    let replacement = replacement
-        .finish_hugr_with_outputs(outputs)
-        .unwrap_or_else(|e| {
-            panic!("Failed to create replacement for removing tuple pack/unpack operations. {e}")
-        });
+    // It is not validated, as it may use type variables of the enclosing function.
+    replacement.set_outputs(outputs).unwrap_or_else(|e| {
+        panic!("Failed to create replacement for removing tuple pack/unpack operations. {e}")
+    });
+    let replacement = std::mem::take(replacement.hugr_mut());
     subcirc
         .create_simple_replacement(hugr, replacement)
         .unwrap_or_else(|e| {
-- 
2.43.0


From b3de2e704d297652c1239d9845ebcff97e871a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 43/73] fix: monomorphising programs with polymorphic
 declarations, or from inside a polymorphic function

---
 hugr-passes/src/monomorphize.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hugr-passes/src/monomorphize.rs b/hugr-passes/src/monomorphize.rs
index 2d5abd5..a142033 100644
--- a/hugr-passes/src/monomorphize.rs
+++ b/hugr-passes/src/monomorphize.rs
@@ -113,6 +113,10 @@ fn mono_scan(
         }
         let fn_inp = ch_op.static_input_port().unwrap();
         let tgt = h.static_source(old_ch).unwrap(); // Use old_ch as edges not copied yet
+        if !h.get_optype(tgt).is_func_defn() {
+            // There is nothing to instantiate for a function that is only declared
+            continue;
+        }
         let new_tgt = instantiate(h, tgt, type_args.clone(), mono_sig.clone(), cache);
         let fn_out = {
             let func = h.get_optype(new_tgt).as_func_defn().unwrap();
@@ -205,8 +209,10 @@ impl<H: HugrMut<Node = Node>> ComposablePass<H> for MonomorphizePass {
 
     fn run(&self, h: &mut H) -> Result<(), Self::Error> {
         let root = h.entrypoint();
-        // If the root is a polymorphic function, then there are no external calls, so nothing to do
-        if !is_polymorphic_funcdefn(h.get_optype(root)) {
+        // If the root is (inside) a polymorphic function, then there are no external calls, so nothing to do
+        if !std::iter::successors(Some(root), |n| h.get_parent(*n))
+            .any(|n| is_polymorphic_funcdefn(h.get_optype(n)))
+        {
             mono_scan(h, root, None, &mut HashMap::new());
         }
         Ok(())
-- 
2.43.0


From 15bc15dd64632d89a7371a54961c58e69d820323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:31 +0000
Subject: [PATCH 44/73] fix: removing dead functions keeps what the function
 around the entrypoint uses

---
 hugr-passes/src/dead_funcs.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hugr-passes/src/dead_funcs.rs b/hugr-passes/src/dead_funcs.rs
index a77c19f..5c5a524 100644
--- a/hugr-passes/src/dead_funcs.rs
+++ b/hugr-passes/src/dead_funcs.rs
@@ -85,17 +85,18 @@ impl<H: HugrMut<Node = Node>> ComposablePass<H> for RemoveDeadFuncsPass {
             entry_points.push(hugr.entrypoint())
         }
 
-        let mut reachable =
-            reachable_funcs(&ModuleGraph::new(hugr), hugr, entry_points).collect::<HashSet<_>>();
-        // Also prevent removing the entrypoint itself
+        // Also prevent removing the function containing the entrypoint, or any function that uses
         let mut n = Some(hugr.entrypoint());
         while let Some(n2) = n {
             n = hugr.get_parent(n2);
-            if n == Some(hugr.module_root()) {
-                reachable.insert(n2);
+            if n == Some(hugr.module_root()) && n2 != hugr.entrypoint() {
+                entry_points.push(n2);
             }
         }
 
+        let reachable =
+            reachable_funcs(&ModuleGraph::new(hugr), hugr, entry_points).collect::<HashSet<_>>();
+
         let unreachable = hugr
             .children(hugr.module_root())
             .filter(|n| {
-- 
2.43.0


From 96af687d0c930cdbd94b1708d9420d61793bbf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:55 +0000
Subject: [PATCH 45/73] fix: dead code elimination in a block keeps what
 dominated blocks use

---
 hugr-passes/src/dead_code.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hugr-passes/src/dead_code.rs b/hugr-passes/src/dead_code.rs
index 094d3e8..8811ce4 100644
--- a/hugr-passes/src/dead_code.rs
+++ b/hugr-passes/src/dead_code.rs
@@ -112,6 +112,14 @@ impl<H: HugrView> DeadCodeElimPass<H> {
         let mut needed = HashSet::new();
         let mut q = VecDeque::from_iter(self.entry_points.iter().copied());
         q.push_front(h.entrypoint());
+        if h.entrypoint_optype().is_dataflow_block() {
+            // Nodes in the block may also be used from blocks that it dominates
+            let in_block = h.entry_descendants().collect::<HashSet<_>>();
+            q.extend(
+                h.children(h.entrypoint())
+                    .filter(|&ch| h.output_neighbours(ch).any(|n| !in_block.contains(&n))),
+            );
+        }
         while let Some(n) = q.pop_front() {
             if !h.contains_node(n) {
                 return Err(DeadCodeElimError::NodeNotFound(n));
-- 
2.43.0


From 856115b9c6e154b4446d72808651f284e477eae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:05 +0000
Subject: [PATCH 46/73] fix: folding Eq with one known input

---
 hugr-core/src/std_extensions/logic.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hugr-core/src/std_extensions/logic.rs b/hugr-core/src/std_extensions/logic.rs
index 1e211f6..b0c2ed9 100644
--- a/hugr-core/src/std_extensions/logic.rs
+++ b/hugr-core/src/std_extensions/logic.rs
@@ -44,9 +44,8 @@ impl ConstFold for LogicOp {
             Self::Eq => {
                 let inps = read_inputs(consts)?;
                 let res = inps.iter().copied().reduce(|a, b| a == b)?;
-                // If we have only some inputs, we can still fold to false, but not to true
-                (!res || inps.len() as u64 == 2)
-                    .then_some(vec![(0.into(), ops::Value::from_bool(res))])
+                // We can only fold if we have a const for all our inputs.
+                (inps.len() as u64 == 2).then_some(vec![(0.into(), ops::Value::from_bool(res))])
             }
             Self::Not => {
                 let inps = read_inputs(consts)?;
-- 
2.43.0


From 219d824b83f889a0c3aff53e56077905da69ce3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:16 +0000
Subject: [PATCH 47/73] fix: nesting CFGs with parallel branches, self loops,
 unreachable blocks and values used in later blocks

---
 hugr-passes/src/nest_cfgs.rs | 51 ++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/hugr-passes/src/nest_cfgs.rs b/hugr-passes/src/nest_cfgs.rs
index 7f456f8..5fc74b1 100644
--- a/hugr-passes/src/nest_cfgs.rs
+++ b/hugr-passes/src/nest_cfgs.rs
@@ -76,7 +76,10 @@ pub trait CfgNodeMap<T> {
 pub trait CfgNester<T>: CfgNodeMap<T> {
     /// Given an entry edge and exit edge defining a SESE region, mutates the
     /// Hugr such that all nodes between these edges are placed in a nested CFG.
-    /// Returns the newly-constructed block (containing a nested CFG).
+    /// Returns the newly-constructed block (containing a nested CFG), or - if the region
+    /// cannot be moved into a nested CFG, for example because values defined in it are used
+    /// outside, or because blocks that are not reachable from the entry branch into it -
+    /// the source of the exit edge, in which case the Hugr is unchanged.
     ///
     /// # Panics
     /// May panic if the two edges do not constitute a SESE region.
@@ -111,6 +114,7 @@ pub fn transform_cfg_to_nested<T: Copy + Eq + Hash + std::fmt::Debug>(
             }
             let (exit, rest): (Vec<_>, Vec<_>) = view
                 .successors(n)
+                .unique()
                 .map(|s| (n, s))
                 .partition(|e| stop_at.is_some() && edge_classes.get(e).copied() == stop_at);
             exit_edges.extend(exit.into_iter().at_most_one().unwrap());
@@ -250,14 +254,21 @@ impl<H: HugrMut<Node = Node>> CfgNester<H::Node> for IdentityCfgMap<H> {
         entry_edge: (H::Node, H::Node),
         exit_edge: (H::Node, H::Node),
     ) -> H::Node {
-        // The algorithm only calls with entry/exit edges for a SESE region; panic if they don't
-        let blocks = region_blocks(self, entry_edge, exit_edge).unwrap();
+        // The algorithm only calls with entry/exit edges for a SESE region; panic if they don't.
+        // However there may be blocks in the CFG that the algorithm did not consider, as they are
+        // not on any path from the entry to the exit.
+        let blocks = match region_blocks(self, entry_edge, exit_edge) {
+            Err(RegionBlocksError::UnexpectedEntryEdges(_)) => return exit_edge.0,
+            r => r.unwrap(),
+        };
         assert!(
             [entry_edge.0, entry_edge.1, exit_edge.0, exit_edge.1]
                 .iter()
                 .all(|n| self.h.get_parent(*n) == Some(self.h.entrypoint()))
         );
-        let [new_block, new_cfg] = OutlineCfg::new(blocks).apply(&mut self.h).unwrap();
+        let Ok([new_block, new_cfg]) = OutlineCfg::new(blocks).apply(&mut self.h) else {
+            return exit_edge.0;
+        };
         debug_assert!(
             [entry_edge.0, exit_edge.1]
                 .iter()
@@ -355,15 +366,20 @@ struct UndirectedDFSTree<T> {
 
 impl<T: Copy + Clone + PartialEq + Eq + Hash> UndirectedDFSTree<T> {
     fn new(cfg: &impl CfgNodeMap<T>) -> Self {
-        //1. Traverse backwards-only from exit building bitset of reachable nodes
+        //1. Traverse forwards from entry, and then backwards-only from exit, building bitset of
+        // nodes on paths between them
+        let mut from_entry = HashSet::new();
+        let mut pending = VecDeque::from([cfg.entry_node()]);
+        while let Some(n) = pending.pop_front() {
+            if from_entry.insert(n) {
+                pending.extend(cfg.successors(n));
+            }
+        }
         let mut reachable = HashSet::new();
-        {
-            let mut pending = VecDeque::new();
-            pending.push_back(cfg.exit_node());
-            while let Some(n) = pending.pop_front() {
-                if reachable.insert(n) {
-                    pending.extend(cfg.predecessors(n));
-                }
+        let mut pending = VecDeque::from([cfg.exit_node()]);
+        while let Some(n) = pending.pop_front() {
+            if from_entry.contains(&n) && reachable.insert(n) {
+                pending.extend(cfg.predecessors(n));
             }
         }
         //2. Traverse undirected from entry node, building dfs_num and setting dfs_parents
@@ -381,7 +397,8 @@ impl<T: Copy + Clone + PartialEq + Eq + Hash> UndirectedDFSTree<T> {
                     }
                 }
             }
-            dfs_parents.remove(&cfg.entry_node()).unwrap();
+            // (Absent if there is no path from entry to exit)
+            dfs_parents.remove(&cfg.entry_node());
         }
         UndirectedDFSTree {
             dfs_num,
@@ -445,7 +462,8 @@ impl<T: Copy + Clone + PartialEq + Eq + Hash> BracketList<T> {
     }
 
     pub fn push(&mut self, e: Bracket<T>) {
-        self.items.push_back(e);
+        // Most recently added first, as this is what `tag` looks at
+        self.items.push_front(e);
         self.size += 1;
     }
 }
@@ -469,6 +487,9 @@ impl<T: Copy + Clone + PartialEq + Eq + Hash> EdgeClassifier<T> {
     /// in a class all dominate + postdominate each other as part of defn of cycle equivalence).
     pub fn get_edge_classes(cfg: &impl CfgNodeMap<T>) -> HashMap<CfgEdge<T>, usize> {
         let tree = UndirectedDFSTree::new(cfg);
+        if !tree.dfs_num.contains_key(&cfg.entry_node()) {
+            return HashMap::new(); // No path from entry to exit
+        }
         let mut s = Self {
             deleted_backedges: HashSet::new(),
             capping_edges: HashMap::new(),
@@ -530,6 +551,8 @@ impl<T: Copy + Clone + PartialEq + Eq + Hash> EdgeClassifier<T> {
         let (be_up, be_down): (Vec<_>, Vec<_>) = non_capping_backedges
             .into_iter()
             .map(|e| (*tree.dfs_num.get(&e.target()).unwrap(), e))
+            // An edge from a block to itself is not in any cycle with another edge
+            .filter(|(dfs, _)| *dfs != n_dfs)
             .partition(|(dfs, _)| *dfs < n_dfs);
 
         // Remove edges to here from beneath
-- 
2.43.0


From 2059700ab901b7a1d0a717c832af925c2d70fded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:21 +0000
Subject: [PATCH 48/73] fix: normalising CFGs with nonlocal edges into nested
 regions, lost order edges and an entry block before the exit

---
 hugr-passes/src/normalize_cfgs.rs | 67 ++++++++++++++++++++++++++++---
 1 file changed, 61 insertions(+), 6 deletions(-)

diff --git a/hugr-passes/src/normalize_cfgs.rs b/hugr-passes/src/normalize_cfgs.rs
index 20d2494..2689694 100644
--- a/hugr-passes/src/normalize_cfgs.rs
+++ b/hugr-passes/src/normalize_cfgs.rs
@@ -55,9 +55,29 @@ pub fn merge_basic_blocks<H: HugrMut>(cfg: &mut H) -> Result<usize, NormalizeCFG
         let (rep, merge_bb, dfgs) = mk_rep(cfg, n, succ);
         let node_map = cfg.apply_patch(rep).unwrap();
         let merged_bb = *node_map.get(&merge_bb).unwrap();
-        for dfg_id in dfgs {
-            let n_id = *node_map.get(&dfg_id).unwrap();
-            cfg.apply_patch(InlineDFG(n_id.into())).unwrap();
+        let [dfg1, dfg2] = dfgs.map(|dfg_id| *node_map.get(&dfg_id).unwrap());
+        cfg.apply_patch(InlineDFG(dfg1.into())).unwrap();
+        // Values defined in n may be used (via `Dom` edges) in succ...
+        let srcs = ext_edge_srcs(cfg, merged_bb, cfg.descendants(dfg2).skip(1));
+        cfg.apply_patch(InlineDFG(dfg2.into())).unwrap();
+        // ...these are now in the same block, but uses in nested regions need Order edges
+        for src in srcs {
+            let nested = (cfg.out_value_types(src))
+                .flat_map(|(p, _)| cfg.linked_inputs(src, p))
+                .filter_map(|(tgt, _)| cfg.get_parent(tgt).filter(|p| *p != merged_bb))
+                .filter_map(|n| {
+                    std::iter::successors(Some(n), |n| cfg.get_parent(*n))
+                        .find(|n| cfg.get_parent(*n) == Some(merged_bb))
+                })
+                .unique()
+                .filter(|n| {
+                    let p = cfg.get_optype(*n).other_input_port().unwrap();
+                    !cfg.linked_outputs(*n, p).any(|(prev, _)| prev == src)
+                })
+                .collect_vec();
+            for n in nested {
+                cfg.add_other_edge(src, n);
+            }
         }
         worklist.push(merged_bb);
     }
@@ -246,6 +266,9 @@ pub fn normalize_cfg<H: HugrMut>(
 
         unpack_before_output(h, entry_output, new_cfg_inputs.clone());
 
+        // Sources of nonlocal (`Ext`) edges to the remaining blocks still need an Order edge to the CFG
+        let ext_srcs = ext_edge_srcs(h, cfg_parent, h.descendants(cfg_node).skip(1));
+
         // Inputs to CFG go directly to DFG
         for inp in h.node_inputs(cfg_node).collect::<Vec<_>>() {
             for src in h.linked_outputs(cfg_node, inp).collect::<Vec<_>>() {
@@ -264,6 +287,9 @@ pub fn normalize_cfg<H: HugrMut>(
         for src in h.node_outputs(dfg).collect::<Vec<_>>() {
             h.connect(dfg, src, cfg_node, src.index());
         }
+        for src in ext_srcs {
+            h.add_other_edge(src, cfg_node);
+        }
         // Inline DFG to ensure that any nonlocal (`Dom`) edges from it, become valid `Ext` edges
         for n in nonlocal_srcs {
             // With required Order edge. (Do this before inlining, in case n is Input.)
@@ -276,8 +302,12 @@ pub fn normalize_cfg<H: HugrMut>(
     let mut exit_dfg = None;
     if let Some(pred) = h.input_neighbours(exit).exactly_one().ok().filter(|pred| {
         // Allow only if there are no `Dom` edges into `pred`. (Ignore `Ext` edges.)
-        let src_nodes = h.children(*pred).flat_map(|ch| h.input_neighbours(ch));
+        let src_nodes = h
+            .descendants(*pred)
+            .skip(1)
+            .flat_map(|ch| h.input_neighbours(ch));
         h.output_neighbours(*pred).count() == 1
+            && h.first_child(cfg_node) != Some(*pred) // The CFG needs an entry block
             && src_nodes.dedup().all(|src| {
                 ancestor_block(h, src).is_none_or(|src| src == *pred) // Nones are `Ext` edges.
             })
@@ -289,6 +319,10 @@ pub fn normalize_cfg<H: HugrMut>(
         let new_cfg_outs = pred_blk.inner_signature().into_owned().input;
 
         // new CFG result type and exit block
+        let cfg_out_tgts = h
+            .node_outputs(cfg_node)
+            .map(|p| (p, h.linked_inputs(cfg_node, p).collect_vec()))
+            .collect_vec();
         let cfg_ty = cfg_ty_mut(h, cfg_node);
         let result_tys = std::mem::replace(&mut cfg_ty.signature.output, new_cfg_outs.clone());
         h.add_ports(
@@ -318,14 +352,19 @@ pub fn normalize_cfg<H: HugrMut>(
         }
         unpack_before_output(h, output, result_tys);
 
-        // Move output edges.
+        // Move output edges (except any disconnected by removing ports of the CFG).
         for p in h.node_outputs(cfg_node).collect_vec() {
-            let tgts = h.linked_inputs(cfg_node, p).collect_vec();
             h.disconnect(cfg_node, p);
+        }
+        for (p, tgts) in cfg_out_tgts {
             for tgt in tgts {
                 h.connect(dfg, p, tgt.0, tgt.1)
             }
         }
+        // Any nonlocal (`Ext`) edges into the moved code need Order edges to the DFG.
+        for src in ext_edge_srcs(h, cfg_parent, h.descendants(dfg).skip(1)) {
+            h.add_other_edge(src, dfg);
+        }
         for p in h.node_inputs(dfg).collect_vec() {
             h.connect(cfg_node, p.index(), dfg, p);
         }
@@ -338,6 +377,22 @@ pub fn normalize_cfg<H: HugrMut>(
     })
 }
 
+/// The children of `parent` that are sources of value edges to any of `targets`.
+fn ext_edge_srcs<H: HugrView>(
+    h: &H,
+    parent: H::Node,
+    targets: impl IntoIterator<Item = H::Node>,
+) -> Vec<H::Node> {
+    targets
+        .into_iter()
+        .flat_map(|tgt| h.in_value_types(tgt).map(move |(p, _)| (tgt, p)))
+        .flat_map(|(tgt, p)| h.linked_outputs(tgt, p))
+        .map(|(src, _)| src)
+        .filter(|src| h.get_parent(*src) == Some(parent))
+        .unique()
+        .collect()
+}
+
 fn mk_rep<H: HugrView>(
     cfg: &H,
     pred: H::Node,
-- 
2.43.0


From b01cce6677dfb143442e410b01b45ecb6b78537c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:58 +0000
Subject: [PATCH 49/73] fix: folding iabs, ipow, inarrow_u and inarrow_s at the
 ends of their ranges

---
 .../arithmetic/int_ops/const_fold.rs          | 33 ++++++++++---------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
index 65e340a..ce96dd6 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
@@ -52,6 +52,19 @@ fn shr(n: u64, k: u64) -> u64 {
         .unwrap_or(0)
 }
 
+/// Raise to any power, modulo 2^64
+fn pow(mut n: u64, mut k: u64) -> u64 {
+    let mut res = 1u64;
+    while k > 0 {
+        if k & 1 == 1 {
+            res = res.wrapping_mul(n);
+        }
+        n = n.wrapping_mul(n);
+        k >>= 1;
+    }
+    res
+}
+
 fn bitmask_from_logwidth(logwidth: u8) -> u64 {
     bitmask_from_width(1u64 << logwidth)
 }
@@ -144,7 +157,7 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             .unwrap_or_else(|e| panic!("Invalid computed sum, {e}"))
                     };
                     let n0val: u64 = n0.value_u();
-                    let out_const: Value = if n0val >> (1 << logwidth1) != 0 {
+                    let out_const: Value = if shr(n0val, 1 << logwidth1) != 0 {
                         mk_out_const(0, Ok(INARROW_ERROR_VALUE.clone()))
                     } else {
                         mk_out_const(1, ConstInt::new_u(logwidth1, n0val).map(Into::into))
@@ -171,8 +184,8 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             .unwrap_or_else(|e| panic!("Invalid computed sum, {e}"))
                     };
                     let n0val: i64 = n0.value_s();
-                    let ub = 1i64 << ((1 << logwidth1) - 1);
-                    let out_const: Value = if n0val >= ub || n0val < -ub {
+                    let ub = i64::MAX >> (64 - (1 << logwidth1));
+                    let out_const: Value = if n0val > ub || n0val < !ub {
                         mk_out_const(0, Ok(INARROW_ERROR_VALUE.clone()))
                     } else {
                         mk_out_const(1, ConstInt::new_s(logwidth1, n0val).map(Into::into))
@@ -575,11 +588,7 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             Value::extension(
                                 ConstInt::new_u(
                                     logwidth,
-                                    n0.value_u()
-                                        .overflowing_pow(
-                                            n1.value_u().try_into().unwrap_or(u32::MAX),
-                                        )
-                                        .0
+                                    pow(n0.value_u(), n1.value_u())
                                         & bitmask_from_logwidth(logwidth),
                                 )
                                 .unwrap(),
@@ -952,13 +961,7 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                         Some(vec![(
                             0.into(),
                             Value::extension(
-                                if n0val == i64::MIN {
-                                    debug_assert!(logwidth == 6);
-                                    ConstInt::new_u(6, 1u64 << 63)
-                                } else {
-                                    ConstInt::new_s(logwidth, n0val.abs())
-                                }
-                                .unwrap(),
+                                ConstInt::new_u(logwidth, n0val.unsigned_abs()).unwrap(),
                             ),
                         )])
                     } else {
-- 
2.43.0


From 7c959b8dc5df1e3968691a15ae999d5676dbc83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:21 +0000
Subject: [PATCH 50/73] fix: PeelTailLoop and InlineDFG did not report all
 nodes they alter as invalidated

---
 hugr-core/src/hugr/patch/inline_dfg.rs | 25 +++++++++++++++++++++++--
 hugr-core/src/hugr/patch/peel_loop.rs  | 19 ++++++++++++++++++-
 2 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/hugr-core/src/hugr/patch/inline_dfg.rs b/hugr-core/src/hugr/patch/inline_dfg.rs
index ab7e799..bb28d85 100644
--- a/hugr-core/src/hugr/patch/inline_dfg.rs
+++ b/hugr-core/src/hugr/patch/inline_dfg.rs
@@ -8,7 +8,7 @@ use crate::hugr::HugrMut;
 use crate::ops::OpTrait;
 use crate::ops::handle::{DfgID, NodeHandle};
 use crate::types::EdgeKind;
-use crate::{HugrView, IncomingPort, Node, OutgoingPort, PortIndex};
+use crate::{Direction, HugrView, IncomingPort, Node, OutgoingPort, Port, PortIndex};
 
 /// Structure identifying an `InlineDFG` rewrite from the spec
 pub struct InlineDFG<N = Node>(pub DfgID<N>);
@@ -53,7 +53,28 @@ impl<N: HugrNode> PatchVerification for InlineDFG<N> {
     ) -> impl Iterator<Item = Self::Node> {
         let n = self.0.node();
         let io = h.contains_node(n).then(|| h.get_io(n)).flatten();
-        std::iter::once(n).chain(io.into_iter().flatten())
+        // Order edges of the DFG become order edges of its children
+        let ordered = io.is_some_and(|[input, output]| {
+            let is_linked = |n: N, port: Option<Port>| port.is_some_and(|p| h.is_linked(n, p));
+            let op = h.get_optype(n);
+            is_linked(n, op.other_port(Direction::Incoming))
+                || is_linked(n, op.other_port(Direction::Outgoing))
+                || is_linked(input, h.get_optype(input).other_port(Direction::Outgoing))
+                || is_linked(output, h.get_optype(output).other_port(Direction::Incoming))
+        });
+        let neighbours = ordered
+            .then(|| {
+                let [input, output] = io.unwrap();
+                [n, input, output]
+                    .into_iter()
+                    .flat_map(|n| h.all_neighbours(n))
+                    .filter(move |m| ![n, input, output].contains(m))
+            })
+            .into_iter()
+            .flatten();
+        std::iter::once(n)
+            .chain(io.into_iter().flatten())
+            .chain(neighbours)
     }
 }
 
diff --git a/hugr-core/src/hugr/patch/peel_loop.rs b/hugr-core/src/hugr/patch/peel_loop.rs
index 5ec7cbd..e1291c5 100644
--- a/hugr-core/src/hugr/patch/peel_loop.rs
+++ b/hugr-core/src/hugr/patch/peel_loop.rs
@@ -1,6 +1,9 @@
 //! Rewrite to peel one iteration of a [TailLoop], creating a [DFG] containing a copy of
 //! the loop body, and a [Conditional] containing the original `TailLoop` node.
+use std::collections::HashSet;
+
 use derive_more::{Display, Error};
+use itertools::Itertools;
 
 use crate::core::HugrNode;
 use crate::ops::{
@@ -61,9 +64,23 @@ impl<N: HugrNode> PatchVerification for PeelTailLoop<N> {
     }
 
     fn invalidated_nodes(&self, h: &impl HugrView<Node = N>) -> impl Iterator<Item = N> {
-        h.get_io(self.0)
+        let io = h.get_io(self.0);
+        // The copy of the body also uses the values coming into it from outside
+        let body: HashSet<_> = (io.is_some().then(|| h.descendants(self.0)))
             .into_iter()
+            .flatten()
+            .filter(|n| *n != self.0)
+            .collect();
+        let outside: Vec<_> = (h.nodes().filter(|n| body.contains(n)))
+            .flat_map(|n| h.in_value_types(n).map(move |(p, _)| (n, p)))
+            .flat_map(|(n, p)| h.linked_outputs(n, p))
+            .map(|(src, _)| src)
+            .filter(|src| !body.contains(src))
+            .unique()
+            .collect();
+        io.into_iter()
             .flat_map(|[_, output]| [self.0, output].into_iter())
+            .chain(outside)
     }
 }
 
-- 
2.43.0


From c64b3150cdf270199c47086b8f38bc00368345d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:57 +0000
Subject: [PATCH 51/73] fix: wires of a PersistentHugr with an edge between two
 deleted nodes panicked

---
 hugr-persistent/src/wire.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hugr-persistent/src/wire.rs b/hugr-persistent/src/wire.rs
index e1b38eb..5237df2 100644
--- a/hugr-persistent/src/wire.rs
+++ b/hugr-persistent/src/wire.rs
@@ -121,6 +121,13 @@ impl PersistentWire {
                         // ports on the opposite end of the wire and boundary
                         // ports in the child commit that deleted the node.
                         for (opp_node, opp_port) in commit_hugr.linked_ports(node, port) {
+                            let opp_per_node = PatchNode(commit_id, opp_node);
+                            if per_hugr.node_status(opp_per_node) == NodeStatus::Deleted(deleted_by)
+                            {
+                                // Both ends are deleted by the same commit: this is not a
+                                // boundary edge.
+                                continue;
+                            }
                             for (child_node, child_port) in commit.linked_child_ports(
                                 opp_node,
                                 opp_port,
-- 
2.43.0


From 44dd15797bfa753304b268d8fe03aaa3861259ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:08 +0000
Subject: [PATCH 52/73] fix: nodes(), children() and get_parent() of a
 PersistentHugr were wrong for replacements with nested regions and outside
 the entrypoint

---
 hugr-persistent/src/trait_impls.rs | 37 +++++++++++++++++-------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/hugr-persistent/src/trait_impls.rs b/hugr-persistent/src/trait_impls.rs
index 77f7a9f..00c2f01 100644
--- a/hugr-persistent/src/trait_impls.rs
+++ b/hugr-persistent/src/trait_impls.rs
@@ -108,15 +108,18 @@ impl HugrView for PersistentHugr {
     fn get_parent(&self, node: Self::Node) -> Option<Self::Node> {
         debug_assert!(self.contains_node(node), "invalid node");
 
-        if node.owner() == self.base() {
-            self.base_hugr()
-                .get_parent(node.1)
-                .map(|n| PatchNode(self.base(), n))
-        } else {
-            // all nodes in children commits are applied on the sibling DFG of the
-            // entrypoint
-            // TODO: generalise this for the case that commits introduce nested DFGs.
-            Some(self.entrypoint())
+        let mut node = node;
+        loop {
+            let commit = self.get_commit(node.owner());
+            let parent = commit.commit_hugr().get_parent(node.1)?;
+            match commit.replacement() {
+                // The top-level nodes of a replacement are inserted as siblings
+                // of the nodes they replace.
+                Some(repl) if parent == repl.replacement().entrypoint() => {
+                    node = repl.subgraph().nodes()[0];
+                }
+                _ => return Some(commit.to_patch_node(parent)),
+            }
         }
     }
 
@@ -151,12 +154,10 @@ impl HugrView for PersistentHugr {
                 match self.get_commit(commit_id).value() {
                     CommitData::Base(hugr) => Either::Left(hugr.nodes().map(to_patch_node)),
                     CommitData::Replacement(repl) => Either::Right(
+                        // Skip the entrypoint and the IO nodes
                         repl.replacement()
-                            .children(repl.replacement().entrypoint())
-                            .filter(|&n| {
-                                let ot = repl.replacement().get_optype(n);
-                                !ot.is_input() && !ot.is_output()
-                            })
+                            .entry_descendants()
+                            .skip(3)
                             .map(to_patch_node),
                     ),
                 }
@@ -407,9 +408,13 @@ impl<I: FusedIterator<Item = PatchNode>> Iterator for IterValidNodes<'_, I> {
         let next_commit_id = self.discovered_commits.pop_front()?;
         let next_commit = self.hugr.get_commit(next_commit_id);
 
+        // Only the top-level nodes of the replacement, without the IO nodes, are
+        // siblings of the nodes they replace.
+        let next_hugr = next_commit.commit_hugr();
         self.discovered_nodes.extend(
-            next_commit
-                .inserted_nodes()
+            next_hugr
+                .children(next_hugr.entrypoint())
+                .skip(2)
                 .map(|n| next_commit.to_patch_node(n)),
         );
 
-- 
2.43.0


From 918c912761cd534ddf2124cbbb67c117ea7870dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:00 +0000
Subject: [PATCH 53/73] fix: PersistentHugr::try_add_replacement accepted
 replacements that do not fit and missed commits they depend on

---
 hugr-persistent/src/commit.rs          |  8 +++-
 hugr-persistent/src/persistent_hugr.rs | 56 ++++++++++++++++++++++++--
 hugr-persistent/src/subgraph.rs        |  2 +-
 hugr-persistent/src/trait_impls.rs     |  8 +---
 hugr-persistent/src/wire.rs            | 16 ++++++++
 5 files changed, 77 insertions(+), 13 deletions(-)

diff --git a/hugr-persistent/src/commit.rs b/hugr-persistent/src/commit.rs
index ae6db1c..1206d71 100644
--- a/hugr-persistent/src/commit.rs
+++ b/hugr-persistent/src/commit.rs
@@ -6,8 +6,8 @@ use delegate::delegate;
 use hugr_core::{
     Direction, Hugr, HugrView, IncomingPort, Node, OutgoingPort, Port,
     hugr::{
-        NodeMetadataMap, internal::HugrInternals, patch::simple_replace::InvalidReplacement,
-        views::InvalidSignature,
+        NodeMetadataMap, SimpleReplacementError, internal::HugrInternals,
+        patch::simple_replace::InvalidReplacement, views::InvalidSignature,
     },
     ops::OpType,
 };
@@ -411,6 +411,10 @@ pub enum InvalidCommit {
     #[error("Invalid replacement: {0}")]
     InvalidReplacement(#[from] InvalidReplacement),
 
+    /// The replacement cannot be applied.
+    #[error("Invalid rewrite: {0}")]
+    InvalidRewrite(#[from] SimpleReplacementError),
+
     /// The signature of the replacement is invalid.
     #[error("Invalid signature: {0}")]
     InvalidSignature(#[from] InvalidSignature),
diff --git a/hugr-persistent/src/persistent_hugr.rs b/hugr-persistent/src/persistent_hugr.rs
index 01bbfd6..2e5d9fc 100644
--- a/hugr-persistent/src/persistent_hugr.rs
+++ b/hugr-persistent/src/persistent_hugr.rs
@@ -6,7 +6,10 @@ use std::{
 
 use hugr_core::{
     Hugr, HugrView, Node,
-    hugr::patch::{Patch, simple_replace},
+    hugr::{
+        patch::{Patch, simple_replace},
+        views::SiblingSubgraph,
+    },
 };
 use itertools::Itertools;
 use relrc::HistoryGraph;
@@ -180,7 +183,11 @@ impl PersistentHugr {
     /// - a [`InvalidCommit::IncompatibleHistory`] error if the replacement is
     ///   incompatible with another commit already in `self`, or
     /// - a [`InvalidCommit::UnknownParent`] error if one of the commits that
-    ///   `replacement` applies on top of is not contained in `self`.
+    ///   `replacement` applies on top of is not contained in `self`, or
+    /// - a [`InvalidCommit::InvalidRewrite`] error if the replacement cannot be
+    ///   applied to `self`.
+    ///
+    /// If an error is returned, `self` is left unchanged.
     pub fn try_add_replacement(
         &mut self,
         replacement: PersistentReplacement,
@@ -194,14 +201,24 @@ impl PersistentHugr {
             .map(|&PatchNode(id, node)| (id, node))
             .into_grouping_map()
             .collect::<BTreeSet<_>>();
-        for (parent, new_invalid_nodes) in new_invalid_nodes {
+        for (&parent, new_invalid_nodes) in &new_invalid_nodes {
+            if !self.contains_id(parent) {
+                return Err(InvalidCommit::UnknownParent(parent));
+            }
             let invalidation_set = self.deleted_nodes(parent).collect();
             if let Some(&node) = new_invalid_nodes.intersection(&invalidation_set).next() {
                 return Err(InvalidCommit::IncompatibleHistory(parent, node));
             }
         }
 
-        let commit = Commit::try_from_replacement(replacement, self.state_space())?;
+        if new_invalid_nodes.is_empty() {
+            return Err(InvalidCommit::EmptyReplacement);
+        }
+        replacement.is_valid_rewrite(self)?;
+
+        let parents = self.commits_within(replacement.subgraph());
+        let parents = parents.into_iter().map(|id| self.get_commit(id).clone());
+        let commit = Commit::try_new(replacement, parents, self.state_space())?;
         // SAFETY: commit does not need to be restrained to state_space's lifetime
         // as it will be added to self.
         let commit = unsafe { commit.upgrade_lifetime() };
@@ -497,6 +514,37 @@ pub enum NodeStatus {
 
 // non-public methods
 impl PersistentHugr {
+    /// The commits that the wires of `subgraph` that are not simply boundary
+    /// wires run through.
+    ///
+    /// These commits need not own any node of `subgraph`, but `subgraph` only
+    /// exists in their presence: they connect nodes of `subgraph` to each other,
+    /// share one source between several of its ports, or remove the uses of a
+    /// port that is not on its boundary.
+    fn commits_within(&self, subgraph: &SiblingSubgraph<PatchNode>) -> BTreeSet<CommitId> {
+        let nodes: BTreeSet<_> = subgraph.nodes().iter().copied().collect();
+        let boundary: BTreeSet<_> = subgraph.outgoing_ports().iter().copied().collect();
+        let mut commits = BTreeSet::new();
+        for &node in &nodes {
+            let owner = self.get_commit(node.owner());
+            for (_, port) in owner.output_value_ports(node.1) {
+                let wire = self.get_wire(node, port);
+                if !boundary.contains(&(node, port))
+                    || wire
+                        .all_incoming_ports(self)
+                        .any(|(n, _)| nodes.contains(&n))
+                {
+                    commits.extend(wire.required_commits(self));
+                }
+            }
+        }
+        for group in subgraph.incoming_ports().iter().filter(|g| g.len() > 1) {
+            let (node, port) = group[0];
+            commits.extend(self.get_wire(node, port).required_commits(self));
+        }
+        commits
+    }
+
     /// Convert a node ID specific to a commit HUGR into a patch node in the
     /// [`PersistentHugr`].
     pub(crate) fn to_persistent_node(&self, node: Node, commit_id: CommitId) -> PatchNode {
diff --git a/hugr-persistent/src/subgraph.rs b/hugr-persistent/src/subgraph.rs
index 99e1e44..8b10933 100644
--- a/hugr-persistent/src/subgraph.rs
+++ b/hugr-persistent/src/subgraph.rs
@@ -87,7 +87,7 @@ impl PinnedSubgraph {
             if !walker.is_complete(w, None) {
                 return Err(InvalidPinnedSubgraph::IncompleteWire(w.clone()));
             }
-            for id in w.owners() {
+            for id in w.required_commits(host) {
                 if host.contains_id(id) {
                     selected_commits.insert(id);
                 } else {
diff --git a/hugr-persistent/src/trait_impls.rs b/hugr-persistent/src/trait_impls.rs
index 00c2f01..fdfa3ca 100644
--- a/hugr-persistent/src/trait_impls.rs
+++ b/hugr-persistent/src/trait_impls.rs
@@ -35,12 +35,8 @@ impl Patch<PersistentHugr> for PersistentReplacement {
     fn apply(self, h: &mut PersistentHugr) -> Result<Self::Outcome, Self::Error> {
         match h.try_add_replacement(self) {
             Ok(commit) => Ok(commit),
-            Err(
-                InvalidCommit::UnknownParent(_)
-                | InvalidCommit::IncompatibleHistory(_, _)
-                | InvalidCommit::EmptyReplacement,
-            ) => Err(SimpleReplacementError::InvalidRemovedNode()),
-            _ => unreachable!(),
+            Err(InvalidCommit::InvalidRewrite(err)) => Err(err),
+            Err(_) => Err(SimpleReplacementError::InvalidRemovedNode()),
         }
     }
 }
diff --git a/hugr-persistent/src/wire.rs b/hugr-persistent/src/wire.rs
index 5237df2..0778df8 100644
--- a/hugr-persistent/src/wire.rs
+++ b/hugr-persistent/src/wire.rs
@@ -190,6 +190,22 @@ impl PersistentWire {
         self.wires.iter().map(|w| w.node().owner()).unique()
     }
 
+    /// All commit IDs that determine the ends of the wire in `hugr`.
+    ///
+    /// Besides the commits that the wire traverses, these are the commits that
+    /// delete one of its ends without replacing it with another one.
+    pub(crate) fn required_commits(&self, hugr: &PersistentHugr) -> BTreeSet<CommitId> {
+        let mut commits = BTreeSet::from_iter(self.owners());
+        for wire in &self.wires {
+            for (node, _) in wire.all_connected_ports(hugr) {
+                if let NodeStatus::Deleted(deleted_by) = hugr.node_status(node) {
+                    commits.insert(deleted_by);
+                }
+            }
+        }
+        commits
+    }
+
     /// Consume the wire and return all ports attached to a wire in `hugr`.
     ///
     /// All ports returned are on nodes that are contained in `hugr`.
-- 
2.43.0


From f896ec3842e0f4208dc42c367b8e95687175698f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:48 +0000
Subject: [PATCH 54/73] fix: SimpleReplacement accepted a subgraph with
 dataflow edges that are not on its boundary

---
 hugr-core/src/hugr/patch/simple_replace.rs | 30 +++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/hugr/patch/simple_replace.rs b/hugr-core/src/hugr/patch/simple_replace.rs
index 2dd114e..347873c 100644
--- a/hugr-core/src/hugr/patch/simple_replace.rs
+++ b/hugr-core/src/hugr/patch/simple_replace.rs
@@ -1,6 +1,6 @@
 //! Implementation of the `SimpleReplace` operation.
 
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 use crate::core::HugrNode;
 use crate::hugr::hugrmut::InsertionResult;
@@ -130,6 +130,34 @@ impl<HostNode: HugrNode> SimpleReplacement<HostNode> {
             return Err(SimpleReplacementError::InvalidRemovedNode());
         }
 
+        // 4. Check that no other dataflow edge enters or leaves the subgraph, and
+        // that ports that share an input have the same source.
+        let inside: HashSet<_> = nodes.iter().copied().collect();
+        let boundary: HashSet<(HostNode, Port)> = {
+            let incoming = self.subgraph.incoming_ports().iter().flatten();
+            let outgoing = self.subgraph.outgoing_ports().iter();
+            let incoming = incoming.map(|&(n, p)| (n, p.into()));
+            incoming
+                .chain(outgoing.map(|&(n, p)| (n, p.into())))
+                .collect()
+        };
+        for &n in nodes {
+            for p in h.all_node_ports(n) {
+                if is_value(n, p)
+                    && !boundary.contains(&(n, p))
+                    && h.linked_ports(n, p).any(|(m, _)| !inside.contains(&m))
+                {
+                    return Err(SimpleReplacementError::InvalidRemovedNode());
+                }
+            }
+        }
+        for input in self.subgraph.incoming_ports() {
+            let sources = input.iter().map(|&(n, p)| h.single_linked_output(n, p));
+            if sources.dedup().count() > 1 {
+                return Err(SimpleReplacementError::InvalidRemovedNode());
+            }
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From 8afd4c40f81f67acac69c5a5d0d5b812890c9ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:34 +0000
Subject: [PATCH 55/73] fix: combining commits with ancestors that are reached
 along paths of different lengths failed or left conflicts

---
 hugr-persistent/src/commit.rs          | 14 +++++++---
 hugr-persistent/src/persistent_hugr.rs | 36 ++++++++++++--------------
 2 files changed, 27 insertions(+), 23 deletions(-)

diff --git a/hugr-persistent/src/commit.rs b/hugr-persistent/src/commit.rs
index 1206d71..4445fa5 100644
--- a/hugr-persistent/src/commit.rs
+++ b/hugr-persistent/src/commit.rs
@@ -1,6 +1,6 @@
 //! [`Commit`] type and data associated with it.
 
-use std::{marker::PhantomData, mem};
+use std::{collections::BTreeSet, iter, marker::PhantomData, mem};
 
 use delegate::delegate;
 use hugr_core::{
@@ -362,8 +362,16 @@ impl Commit<'_> {
 }
 
 fn get_base_ancestors(arg: &RelRc<CommitData, ()>) -> impl Iterator<Item = &RelRc<CommitData, ()>> {
-    arg.all_ancestors()
-        .filter(|c| matches!(c.value(), CommitData::Base(_)))
+    // Note: `RelRc::all_ancestors` stops at the first node that it encounters
+    // for the second time.
+    let mut seen = BTreeSet::from([arg.as_ptr()]);
+    let mut stack = vec![arg];
+    iter::from_fn(move || {
+        let node = stack.pop()?;
+        stack.extend(node.all_parents().filter(|p| seen.insert(p.as_ptr())));
+        Some(node)
+    })
+    .filter(|c| matches!(c.value(), CommitData::Base(_)))
 }
 
 impl From<Commit<'_>> for RelRc<CommitData, ()> {
diff --git a/hugr-persistent/src/persistent_hugr.rs b/hugr-persistent/src/persistent_hugr.rs
index 2e5d9fc..c601ae7 100644
--- a/hugr-persistent/src/persistent_hugr.rs
+++ b/hugr-persistent/src/persistent_hugr.rs
@@ -466,32 +466,28 @@ fn get_ancestors_while<'a>(
     continue_fn: impl Fn(&Commit) -> bool,
 ) -> VecDeque<Commit<'a>> {
     let mut seen_ids = BTreeSet::new();
-    let commits = commits.into_iter();
-    let mut all_commits = VecDeque::with_capacity(commits.size_hint().0);
+    let mut all_commits = VecDeque::new();
 
     for commit in commits {
-        if !seen_ids.insert(commit.as_ptr()) {
-            continue;
-        }
-        let start = all_commits.len();
-        let mut ind = start;
-        all_commits.push_back(commit);
-
-        while ind < all_commits.len() {
-            let commit = all_commits[ind].clone();
-            ind += 1;
-
-            if !continue_fn(&commit) {
+        // Depth-first search in post-order: a commit is added in front of all
+        // other commits once all its ancestors have been added.
+        let mut stack = vec![(commit, false)];
+        while let Some((commit, visited)) = stack.pop() {
+            if visited {
+                all_commits.push_front(commit);
                 continue;
             }
-
-            for commit in commit.parents() {
-                if seen_ids.insert(commit.as_ptr()) {
-                    all_commits.push_back(commit.clone());
-                }
+            if !seen_ids.insert(commit.as_ptr()) {
+                continue;
             }
+            let parents = if continue_fn(&commit) {
+                commit.parents().cloned().collect_vec()
+            } else {
+                vec![]
+            };
+            stack.push((commit, true));
+            stack.extend(parents.into_iter().map(|p| (p, false)));
         }
-        all_commits.rotate_right(all_commits.len() - start);
     }
 
     all_commits
-- 
2.43.0


From 0efca82b9f4e43176a82d506e0fbe82b918b4b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:54 +0000
Subject: [PATCH 56/73] fix: saving a commit state space lost the nodes of
 HUGRs that are not in canonical order

---
 hugr-core/src/hugr/views/sibling_subgraph.rs |  5 +-
 hugr-persistent/src/state_space/serial.rs    | 48 +++++++++++++++++++-
 2 files changed, 48 insertions(+), 5 deletions(-)

diff --git a/hugr-core/src/hugr/views/sibling_subgraph.rs b/hugr-core/src/hugr/views/sibling_subgraph.rs
index 84d9bed..7a387b2 100644
--- a/hugr-core/src/hugr/views/sibling_subgraph.rs
+++ b/hugr-core/src/hugr/views/sibling_subgraph.rs
@@ -570,10 +570,7 @@ impl<N: HugrNode> SiblingSubgraph<N> {
     ///
     /// This does not check convexity. It is up to the caller to ensure that
     /// the mapped subgraph obtained from this is convex in the new Hugr.
-    pub(crate) fn map_nodes<N2: HugrNode>(
-        &self,
-        node_map: impl Fn(N) -> N2,
-    ) -> SiblingSubgraph<N2> {
+    pub fn map_nodes<N2: HugrNode>(&self, node_map: impl Fn(N) -> N2) -> SiblingSubgraph<N2> {
         let nodes = self.nodes.iter().map(|&n| node_map(n)).collect_vec();
         let inputs = self
             .inputs
diff --git a/hugr-persistent/src/state_space/serial.rs b/hugr-persistent/src/state_space/serial.rs
index 5ebbdf7..ce746c0 100644
--- a/hugr-persistent/src/state_space/serial.rs
+++ b/hugr-persistent/src/state_space/serial.rs
@@ -1,5 +1,8 @@
 //! Serialized format for [`CommitStateSpace`]
 
+use std::collections::HashMap;
+
+use hugr_core::HugrView;
 use relrc::serialization::SerializedRegistry;
 
 use crate::serial::SerialPersistentHugr;
@@ -41,6 +44,41 @@ impl CommitData {
     }
 }
 
+impl CommitData {
+    /// Put the nodes of the HUGR of the commit in canonical order.
+    ///
+    /// `rekey` must map the nodes of all commits to their canonical index.
+    fn canonicalize(self, rekey: impl Fn(PatchNode) -> PatchNode) -> Self {
+        match self {
+            CommitData::Base(mut hugr) => {
+                hugr.canonicalize_nodes(|_, _| {});
+                CommitData::Base(hugr)
+            }
+            CommitData::Replacement(repl) => {
+                let subgraph = repl.subgraph().map_nodes(rekey);
+                let mut hugr = repl.into_replacement();
+                hugr.canonicalize_nodes(|_, _| {});
+                CommitData::Replacement(PersistentReplacement::new_unchecked(subgraph, hugr))
+            }
+        }
+    }
+}
+
+/// The node indices of `hugr` after a call to [`Hugr::canonicalize_nodes`].
+fn canonical_node_map(hugr: &Hugr) -> HashMap<Node, Node> {
+    let mut order = vec![hugr.module_root()];
+    let mut index = 0;
+    while index < order.len() {
+        order.extend(hugr.children(order[index]));
+        index += 1;
+    }
+    order
+        .into_iter()
+        .enumerate()
+        .map(|(i, n)| (n, portgraph::NodeIndex::new(i).into()))
+        .collect()
+}
+
 impl<H: From<Hugr>> From<CommitData> for SerialCommitData<H> {
     fn from(value: CommitData) -> Self {
         value.into_serial()
@@ -66,8 +104,16 @@ impl<H> SerialCommitStateSpace<H> {
     where
         H: From<Hugr>,
     {
+        // The nodes of a HUGR may be renumbered when it is serialized, unless they
+        // are in canonical order.
+        let node_maps = state_space
+            .all_commits()
+            .into_iter()
+            .map(|(id, commit)| (id, canonical_node_map(commit.commit_hugr())))
+            .collect::<HashMap<_, _>>();
+        let rekey = |PatchNode(id, node)| PatchNode(id, node_maps[&id][&node]);
         let registry = state_space.as_registry().borrow().to_serialized();
-        let registry = registry.map_nodes(|n| n.into_serial());
+        let registry = registry.map_nodes(|n| n.canonicalize(rekey).into_serial());
         Self {
             registry,
             hugrs: Vec::new(),
-- 
2.43.0


From 9b8997059db338ec30ea0af5298514289fd84115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:13 +0000
Subject: [PATCH 57/73] fix: refused steps of a Walker changed it, and boundary
 nodes of replacements could be pinned

---
 hugr-persistent/src/walker.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/hugr-persistent/src/walker.rs b/hugr-persistent/src/walker.rs
index eac2f05..d3726e4 100644
--- a/hugr-persistent/src/walker.rs
+++ b/hugr-persistent/src/walker.rs
@@ -152,7 +152,12 @@ impl<'a> Walker<'a> {
                 .state_space
                 .try_upgrade(commit_id)
                 .ok_or(PinNodeError::UnknownCommitId(commit_id))?;
+            let backup = self.selected_commits.clone();
             self.try_select_commit(commit)?;
+            if !self.selected_commits.contains_node(node) {
+                self.selected_commits = backup;
+                return Err(PinNodeError::AlreadyDeleted(node));
+            }
         }
         Ok(self.pinned_nodes.insert(node))
     }
@@ -169,7 +174,13 @@ impl<'a> Walker<'a> {
         // the same time that we check the ancestors are compatible in
         // `PersistentHugr`, with e.g. a callback, instead of storing a backup
         let backup = self.selected_commits.clone();
-        let commit_id = self.selected_commits.try_add_commit(commit)?;
+        let commit_id = match self.selected_commits.try_add_commit(commit) {
+            Ok(commit_id) => commit_id,
+            Err(err) => {
+                self.selected_commits = backup;
+                return Err(err.into());
+            }
+        };
         if let Some(&pinned_node) = self
             .pinned_nodes
             .iter()
-- 
2.43.0


From df4f9cf4ee1c8dccbcb8c9ac8bc788bc8944180b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:02 +0000
Subject: [PATCH 58/73] fix: Walker::expand did not find all nodes that can be
 on a wire once commits are selected

---
 hugr-persistent/src/walker.rs | 195 +++++++++++++---------------------
 1 file changed, 73 insertions(+), 122 deletions(-)

diff --git a/hugr-persistent/src/walker.rs b/hugr-persistent/src/walker.rs
index d3726e4..537aa34 100644
--- a/hugr-persistent/src/walker.rs
+++ b/hugr-persistent/src/walker.rs
@@ -54,10 +54,8 @@
 //! versions of the graph simultaneously, without having to materialize
 //! each version separately.
 
-use std::collections::BTreeSet;
+use std::collections::{BTreeSet, VecDeque};
 
-use hugr_core::Node;
-use hugr_core::hugr::patch::simple_replace::BoundaryMode;
 use hugr_core::ops::handle::DataflowParentID;
 use itertools::{Either, Itertools};
 use thiserror::Error;
@@ -236,61 +234,20 @@ impl<'a> Walker<'a> {
             return Either::Left(std::iter::once(self.clone()));
         }
 
-        // Find unpinned ports on the wire (satisfying the direction constraint)
-        let unpinned_ports = self.wire_unpinned_ports(wire, dir);
-
-        // Obtain set of pinnable nodes by considering all ports (in descendant
-        // commits) equivalent to currently unpinned ports.
-        let pinnable_nodes = unpinned_ports
-            .flat_map(|(node, port)| self.equivalent_descendant_ports(node, port))
-            .map(|(n, _, commits)| (n, commits))
-            .unique();
-
-        let new_walkers = pinnable_nodes.filter_map(|(pinnable_node, new_commits)| {
-            let contains_new_commit = || {
-                new_commits
-                    .iter()
-                    .any(|&cm| !self.selected_commits.contains_id(cm))
-            };
-            debug_assert!(
-                !self.is_pinned(pinnable_node) || contains_new_commit(),
-                "trying to pin already pinned node and no new commit is selected"
-            );
-
-            // Upgrade the commit IDs
-            let new_commits = new_commits
-                .iter()
-                .map(|&id| self.state_space.try_upgrade(id))
-                .collect::<Option<Vec<_>>>()?;
-
-            // Update the selected commits to include the new commits.
-            let new_selected_commits = {
-                let mut phugr = self.selected_commits.clone();
-                phugr.try_add_commits(new_commits).ok()?;
-                phugr
-            };
-            // .try_create(self.selected_commits.all_commit_ids().chain(new_commits))
-            // .ok()?;
-
-            // Make sure that the pinned nodes are still valid after including the new
-            // selected commits.
-            if self
-                .pinned_nodes
-                .iter()
-                .any(|&pnode| !new_selected_commits.contains_node(pnode))
-            {
-                return None;
-            }
-
-            // Construct a new walker and pin `pinnable_node`.
-            let mut new_walker = Walker {
-                state_space: self.state_space,
-                selected_commits: new_selected_commits,
-                pinned_nodes: self.pinned_nodes.clone(),
-            };
-            new_walker.try_pin_node(pinnable_node).ok()?;
-            Some(new_walker)
-        });
+        // Pin every node that can be found on the wire, selecting only those commits
+        // that put the node there.
+        let new_walkers =
+            self.pinnable_nodes(wire, dir)
+                .into_iter()
+                .map(|(node, selected_commits)| {
+                    let mut pinned_nodes = self.pinned_nodes.clone();
+                    pinned_nodes.insert(node);
+                    Walker {
+                        state_space: self.state_space,
+                        selected_commits,
+                        pinned_nodes,
+                    }
+                });
 
         Either::Right(new_walkers)
     }
@@ -387,42 +344,70 @@ impl<'a> Walker<'a> {
         self.pinned_nodes.iter().copied()
     }
 
-    /// Get all equivalent ports among the commits that are descendants of the
-    /// current commit.
+    /// Get all nodes that can be found at a port of `wire` in the direction
+    /// `dir`, in the current Hugr or once more commits are selected.
     ///
-    /// The ports in the returned iterator will be in the same direction as
-    /// `port`. For each equivalent port, also return the set of empty commits
-    /// that were visited to find it.
-    fn equivalent_descendant_ports(
+    /// Each node is returned with the Hugr that results from selecting the commits
+    /// that put it on the wire. The nodes that are already pinned and on the wire
+    /// are left out, but they are returned for the commits that connect them to
+    /// the wire.
+    fn pinnable_nodes(
         &self,
-        node: PatchNode,
-        port: Port,
-    ) -> Vec<(PatchNode, Port, BTreeSet<CommitId>)> {
-        // Now, perform a BFS to find all equivalent ports
-        let mut all_ports = vec![(node, port, BTreeSet::new())];
-        let mut index = 0;
-        while index < all_ports.len() {
-            let (node, port, empty_commits) = all_ports[index].clone();
-            let Some(commit) = self.state_space.try_upgrade(node.owner()) else {
-                continue;
-            };
-            index += 1;
-
-            for (child, (opp_node, opp_port)) in
-                commit.children_at_boundary_port(node.1, port, self.state_space)
-            {
-                for (node, port) in
-                    commit.linked_child_ports(opp_node, opp_port, &child, BoundaryMode::SnapToHost)
-                {
-                    let mut empty_commits = empty_commits.clone();
-                    if node.owner() != child.id() {
-                        empty_commits.insert(child.id());
+        wire: &PersistentWire,
+        dir: Option<Direction>,
+    ) -> Vec<(PatchNode, PersistentHugr)> {
+        let all_ports = wire.all_ports(&self.selected_commits, None).collect_vec();
+        let mut pinnable: Vec<(PatchNode, PersistentHugr)> = Vec::new();
+        // Perform a BFS over the Hugrs obtained by selecting commits that delete a
+        // port of the wire. In each Hugr, only consider ports that are new.
+        let mut queue = VecDeque::from([(
+            self.selected_commits.clone(),
+            all_ports.clone(),
+            BTreeSet::from_iter(all_ports),
+        )]);
+        while let Some((hugr, new_ports, all_ports)) = queue.pop_front() {
+            let is_current = hugr
+                .all_commit_ids()
+                .all(|id| self.selected_commits.contains_id(id));
+            for (node, port) in new_ports {
+                let is_pinned = self.is_pinned(node);
+                if dir.is_none_or(|dir| port.direction() == dir) && !(is_pinned && is_current) {
+                    let is_known = |(n, h): &(PatchNode, PersistentHugr)| {
+                        *n == node && h.all_commit_ids().all(|id| hugr.contains_id(id))
+                    };
+                    if !pinnable.iter().any(is_known) {
+                        pinnable.push((node, hugr.clone()));
+                    }
+                }
+                if is_pinned {
+                    continue;
+                }
+                for child in hugr.get_commit(node.owner()).children(self.state_space) {
+                    if !child.deleted_parent_nodes().contains(&node) {
+                        continue;
+                    }
+                    let mut child_hugr = hugr.clone();
+                    if child_hugr.try_add_commit(child).is_err()
+                        || !self.pinned_nodes().all(|n| child_hugr.contains_node(n))
+                    {
+                        continue;
                     }
-                    all_ports.push((node, port, empty_commits));
+                    let Some(&(node, port)) =
+                        all_ports.iter().find(|(n, _)| child_hugr.contains_node(*n))
+                    else {
+                        continue;
+                    };
+                    let wire = child_hugr.get_wire(node, port);
+                    let new_ports = wire
+                        .all_ports(&child_hugr, None)
+                        .filter(|port| !all_ports.contains(port))
+                        .collect_vec();
+                    let all_ports = all_ports.iter().chain(&new_ports).copied().collect();
+                    queue.push_back((child_hugr, new_ports, all_ports));
                 }
             }
         }
-        all_ports
+        pinnable
     }
 }
 
@@ -447,40 +432,6 @@ impl Walker<'_> {
     }
 }
 
-impl<'a> Commit<'a> {
-    /// Given a node and port in `self`, return all child commits of `self`
-    /// in the state space that delete `node` but keep at least one port linked
-    /// to `(node, port)`. In other words, (node, port) is a boundary port
-    /// of the subgraph of the child replacement.
-    ///
-    /// Return all tuples of children and linked port of (node, port) in `self`
-    /// that is outside of the subgraph of the child. The returned ports are
-    /// opposite to the direction of `port`.
-    fn children_at_boundary_port(
-        &self,
-        node: Node,
-        port: Port,
-        state_space: &'a CommitStateSpace,
-    ) -> impl Iterator<Item = (Commit<'a>, (Node, Port))> + '_ {
-        let linked_ports = self.commit_hugr().linked_ports(node, port).collect_vec();
-
-        self.children(state_space).flat_map(move |child| {
-            let deleted_nodes: BTreeSet<_> = child.deleted_parent_nodes().collect();
-            if !deleted_nodes.contains(&self.to_patch_node(node)) {
-                vec![]
-            } else {
-                linked_ports
-                    .iter()
-                    .filter_map(move |&(linked_node, linked_port)| {
-                        (!deleted_nodes.contains(&self.to_patch_node(linked_node)))
-                            .then_some((child.clone(), (linked_node, linked_port)))
-                    })
-                    .collect_vec()
-            }
-        })
-    }
-}
-
 /// An error that occurs when trying to pin a node in a [`Walker`].
 #[derive(Debug, Clone, Error)]
 #[non_exhaustive]
-- 
2.43.0


From f7779152130e2fdcbad05d6d4cdc1fb0922fd10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:57 +0000
Subject: [PATCH 59/73] fix: moving a program in by node links works for every
 entrypoint

insert_link_hugr_by_node panicked when the source's entrypoint was its
module root, or when nothing was inserted for the entrypoint and it was
directly below a module child that links to an existing node.
insert_link_view_by_node accepts both.
---
 hugr-core/src/hugr/linking.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/hugr/linking.rs b/hugr-core/src/hugr/linking.rs
index f20c006..e4c4f46 100644
--- a/hugr-core/src/hugr/linking.rs
+++ b/hugr-core/src/hugr/linking.rs
@@ -87,7 +87,12 @@ pub trait HugrLinking: HugrMut {
         let mut roots = HashMap::new();
         if let Some(parent) = parent {
             roots.insert(other.entrypoint(), parent);
-            other.set_parent(other.entrypoint(), other.module_root());
+            if other.entrypoint() != other.module_root() {
+                other.set_parent(other.entrypoint(), other.module_root());
+            }
+        } else {
+            // Nothing is inserted for the entrypoint, so it may be removed below.
+            other.set_entrypoint(other.module_root());
         };
         for (ch, dirv) in children.iter() {
             roots.insert(*ch, self.module_root());
-- 
2.43.0


From 03b1d03a468e20a3b400c7f9e9fc314696d01791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:42 +0000
Subject: [PATCH 60/73] fix: loaded extensions referred to a definition other
 than the one a registry keeps

A definition repeated in a list of loaded extensions, or also known to the
reader, could be referred to by an instance that nothing kept alive: an
extension's own operations then belonged to an extension that was gone.
---
 hugr-core/src/extension.rs                    |  6 ++++-
 .../src/extension/resolution/extension.rs     | 27 +++++++++++++++----
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/hugr-core/src/extension.rs b/hugr-core/src/extension.rs
index c6dc2be..4e85b26 100644
--- a/hugr-core/src/extension.rs
+++ b/hugr-core/src/extension.rs
@@ -283,7 +283,11 @@ impl ExtensionRegistry {
 
         let mut weak_registry = WeakExtensionRegistry::default();
         for (ext, weak) in extensions.iter().zip(weaks) {
-            weak_registry.register(ext.name().clone(), weak);
+            // If an extension is repeated, refer to the one that will be kept.
+            let kept = weak_registry.get(ext.name()).and_then(Weak::upgrade);
+            if kept.is_none_or(|kept| kept.version() < ext.version()) {
+                weak_registry.register(ext.name().clone(), weak);
+            }
         }
 
         // Actual initialization here
diff --git a/hugr-core/src/extension/resolution/extension.rs b/hugr-core/src/extension/resolution/extension.rs
index 05c0faf..5ce9f71 100644
--- a/hugr-core/src/extension/resolution/extension.rs
+++ b/hugr-core/src/extension/resolution/extension.rs
@@ -5,7 +5,7 @@
 #![allow(dead_code, unused_variables)]
 
 use std::mem;
-use std::sync::Arc;
+use std::sync::{Arc, Weak};
 
 use crate::extension::{Extension, ExtensionId, ExtensionRegistry, OpDef, SignatureFunc, TypeDef};
 
@@ -15,7 +15,8 @@ use super::{ExtensionResolutionError, WeakExtensionRegistry};
 impl ExtensionRegistry {
     /// Given a list of extensions that has been deserialized, create a new
     /// registry while updating any internal `Weak<Extension>` reference to
-    /// point to the newly created [`Arc`]s in the registry.
+    /// point to the newly created [`Arc`]s in the registry, or to those in
+    /// `other_extensions` that are at least as up to date.
     ///
     /// # Errors
     ///
@@ -29,12 +30,28 @@ impl ExtensionRegistry {
         other_extensions: &WeakExtensionRegistry,
     ) -> Result<ExtensionRegistry, ExtensionResolutionError> {
         Self::new_cyclic(extensions, |mut exts, weak_registry| {
-            let mut weak_registry = weak_registry.clone();
+            // Refer to the definition a registry with all the extensions would
+            // keep: the most up to date one, and the already existing one when
+            // the versions match.
+            let mut resolved = weak_registry.clone();
             for (other_id, other) in other_extensions.iter() {
-                weak_registry.register(other_id.clone(), other.clone());
+                let own = weak_registry.get(other_id).and_then(Weak::upgrade);
+                let is_outdated = match (own, other.upgrade()) {
+                    (Some(own), Some(other)) => other.version() < own.version(),
+                    (Some(_), None) => true,
+                    (None, _) => false,
+                };
+                if !is_outdated {
+                    resolved.register(other_id.clone(), other.clone());
+                }
             }
             for ext in &mut exts {
-                ext.resolve_references(&weak_registry)?;
+                // An extension always refers to itself by its own definition.
+                let mut resolved = resolved.clone();
+                if let Some(own) = weak_registry.get(ext.name()) {
+                    resolved.register(ext.name().clone(), own.clone());
+                }
+                ext.resolve_references(&resolved)?;
             }
             Ok(exts)
         })
-- 
2.43.0


From 340967faee2ca7675e3d7ceca1d5ad6d850c8c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:42 +0000
Subject: [PATCH 61/73] fix: operations of the standard library with damaged
 arguments panicked the loader

Validators of type arguments ran before the arguments were checked against
the declared parameters, popping from an array type of size zero underflowed
and array sizes that no node can have exhausted the memory.
---
 hugr-core/src/extension/op_def.rs                        | 1 +
 .../src/std_extensions/collections/array/array_op.rs     | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/extension/op_def.rs b/hugr-core/src/extension/op_def.rs
index c1e19b5..aeed9fe 100644
--- a/hugr-core/src/extension/op_def.rs
+++ b/hugr-core/src/extension/op_def.rs
@@ -231,6 +231,7 @@ impl SignatureFunc {
         let temp: PolyFuncTypeRV; // to keep alive
         let (pf, args) = match &self {
             SignatureFunc::CustomValidator(custom) => {
+                check_term_types(args, custom.poly_func.params())?;
                 custom.validate.validate(args, def)?;
                 (&custom.poly_func, args)
             }
diff --git a/hugr-core/src/std_extensions/collections/array/array_op.rs b/hugr-core/src/std_extensions/collections/array/array_op.rs
index 1eafb59..b575e41 100644
--- a/hugr-core/src/std_extensions/collections/array/array_op.rs
+++ b/hugr-core/src/std_extensions/collections/array/array_op.rs
@@ -72,6 +72,12 @@ impl<AK: ArrayKind> SignatureFromArgs for GenericArrayOpDef<AK> {
         let [TypeArg::BoundedNat(n)] = *arg_values else {
             return Err(SignatureError::InvalidTypeArgs);
         };
+        if let (GenericArrayOpDef::new_array | GenericArrayOpDef::unpack, Err(_)) =
+            (self, u16::try_from(n))
+        {
+            // No node has that many ports.
+            return Err(SignatureError::InvalidTypeArgs);
+        }
         let elem_ty_var = Type::new_var_use(0, TypeBound::Linear);
         let array_ty = AK::ty(n, elem_ty_var.clone());
         let params = vec![TypeBound::Linear.into()];
@@ -85,7 +91,8 @@ impl<AK: ArrayKind> SignatureFromArgs for GenericArrayOpDef<AK> {
                 FuncValueType::new(array_ty, vec![elem_ty_var.clone(); n as usize]),
             ),
             GenericArrayOpDef::pop_left | GenericArrayOpDef::pop_right => {
-                let popped_array_ty = AK::ty(n - 1, elem_ty_var.clone());
+                // Popping from an empty array returns `None`.
+                let popped_array_ty = AK::ty(n.saturating_sub(1), elem_ty_var.clone());
                 PolyFuncTypeRV::new(
                     params,
                     FuncValueType::new(
-- 
2.43.0


From 97dd47b2c94d42728158ec2edc3257abce82f6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:23 +0000
Subject: [PATCH 62/73] fix: miscellaneous data of operation definitions was
 stored in random order

---
 hugr-core/src/extension/op_def.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/hugr-core/src/extension/op_def.rs b/hugr-core/src/extension/op_def.rs
index aeed9fe..f13956c 100644
--- a/hugr-core/src/extension/op_def.rs
+++ b/hugr-core/src/extension/op_def.rs
@@ -1,9 +1,10 @@
 use std::cmp::min;
-use std::collections::HashMap;
 use std::collections::btree_map::Entry;
+use std::collections::{BTreeMap, HashMap};
 use std::fmt::{Debug, Formatter};
 use std::sync::{Arc, Weak};
 
+use itertools::Itertools as _;
 use serde_with::serde_as;
 
 use super::{
@@ -18,6 +19,14 @@ use crate::types::type_param::{TypeArg, TypeParam, check_term_types};
 use crate::types::{FuncValueType, PolyFuncType, PolyFuncTypeRV, Signature};
 mod serialize_signature_func;
 
+/// Serialize a map in the order of its keys.
+fn serialize_sorted<S: serde::Serializer>(
+    map: &HashMap<String, serde_json::Value>,
+    serializer: S,
+) -> Result<S::Ok, S::Error> {
+    serde::Serialize::serialize(&map.iter().collect::<BTreeMap<_, _>>(), serializer)
+}
+
 /// Trait necessary for binary computations of `OpDef` signature
 pub trait CustomSignatureFunc: Send + Sync {
     /// Compute signature of node given
@@ -348,7 +357,11 @@ pub struct OpDef {
     /// Human readable description of the operation.
     description: String,
     /// Miscellaneous data associated with the operation.
-    #[serde(default, skip_serializing_if = "HashMap::is_empty")]
+    #[serde(
+        default,
+        skip_serializing_if = "HashMap::is_empty",
+        serialize_with = "serialize_sorted"
+    )]
     misc: HashMap<String, serde_json::Value>,
 
     #[serde(with = "serialize_signature_func", flatten)]
@@ -486,10 +499,13 @@ impl OpDef {
         self.misc.insert(k.to_string(), v)
     }
 
-    /// Iterate over all miscellaneous data in the [`OpDef`].
+    /// Iterate over all miscellaneous data in the [`OpDef`], in the order of the keys.
     #[allow(unused)] // Unused when no features are enabled
     pub(crate) fn iter_misc(&self) -> impl ExactSizeIterator<Item = (&str, &serde_json::Value)> {
-        self.misc.iter().map(|(k, v)| (k.as_str(), v))
+        self.misc
+            .iter()
+            .map(|(k, v)| (k.as_str(), v))
+            .sorted_by_key(|&(k, _)| k)
     }
 
     /// Set the constant folding function for this Op, which can evaluate it
-- 
2.43.0


From 6d6be60dc5016fa096be62574c895a59e6e49a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:34 +0000
Subject: [PATCH 63/73] fix: a replacement calling a function that is not in
 the Hugr panicked

E.g. an operation inside a function constant: report NodeNotFound.
---
 hugr-passes/src/replace_types.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hugr-passes/src/replace_types.rs b/hugr-passes/src/replace_types.rs
index a6167a5..6c54a32 100644
--- a/hugr-passes/src/replace_types.rs
+++ b/hugr-passes/src/replace_types.rs
@@ -61,6 +61,7 @@ impl NodeTemplate {
     /// # Errors
     ///
     /// * If `self` is a [`Self::Call`] and the target Node either
+    ///    * is not in the `hugr`
     ///    * is neither a [`FuncDefn`] nor a [`FuncDecl`]
     ///    * has a [`signature`] which the type-args of the [`Self::Call`] do not match
     ///
@@ -158,6 +159,9 @@ fn call<H: HugrView<Node = Node>>(
     func: Node,
     type_args: Vec<TypeArg>,
 ) -> Result<Call, BuildError> {
+    if !h.contains_node(func) {
+        return Err(BuildError::NodeNotFound { node: func });
+    }
     let func_sig = match h.get_optype(func) {
         OpType::FuncDecl(fd) => fd.signature().clone(),
         OpType::FuncDefn(fd) => fd.signature().clone(),
-- 
2.43.0


From d13f5b6a693abc81ef60de14225f90189e99b023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:34 +0000
Subject: [PATCH 64/73] fix: ReplaceTypes used the regions of the Hugr for
 function constants in it

---
 hugr-passes/src/replace_types.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hugr-passes/src/replace_types.rs b/hugr-passes/src/replace_types.rs
index 6c54a32..fa52475 100644
--- a/hugr-passes/src/replace_types.rs
+++ b/hugr-passes/src/replace_types.rs
@@ -740,7 +740,11 @@ impl ReplaceTypes {
                     false
                 }
             }),
-            Value::Function { hugr } => self.run(&mut **hugr),
+            Value::Function { hugr } => {
+                // All of it: any `regions` refer to the outer Hugr
+                let root = hugr.module_root();
+                self.change_subtree(&mut **hugr, root, false)
+            }
         }
     }
 
-- 
2.43.0


From 03719ca246a4df8aa5c9a3af49e75a5d5f63fc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:34 +0000
Subject: [PATCH 65/73] fix: ReplaceTypes reported success on nonlocal edges
 that became linear

Edges with a single target were not checked, leaving an invalid Hugr.
---
 hugr-passes/src/replace_types.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/hugr-passes/src/replace_types.rs b/hugr-passes/src/replace_types.rs
index fa52475..a158901 100644
--- a/hugr-passes/src/replace_types.rs
+++ b/hugr-passes/src/replace_types.rs
@@ -758,7 +758,19 @@ impl ReplaceTypes {
             for outp in new_sig.output_ports() {
                 if !new_sig.out_port_type(outp).unwrap().copyable() {
                     let targets = hugr.linked_inputs(n, outp).collect::<Vec<_>>();
-                    if targets.len() != 1 {
+                    if let [(tgt, _)] = targets[..] {
+                        // No copy or discard needed, but linear edges must be local
+                        let (src_parent, tgt_parent) =
+                            (hugr.get_parent(n).unwrap(), hugr.get_parent(tgt).unwrap());
+                        if src_parent != tgt_parent {
+                            return Err(LinearizeError::NoLinearNonLocalEdges {
+                                src: n,
+                                src_parent,
+                                tgt,
+                                tgt_parent,
+                            });
+                        }
+                    } else {
                         hugr.disconnect(n, outp);
                         let src = Wire::new(n, outp);
                         self.linearize.insert_copy_discard(hugr, src, &targets)?;
-- 
2.43.0


From 5bd348eeb8b0969c9bece24b6b54d39711ae5857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:34 +0000
Subject: [PATCH 66/73] fix: linearization panicked on templates that call
 functions, type variables and more than two copies of arrays

---
 hugr-passes/src/replace_types/handlers.rs  | 71 +++++++++++++++-------
 hugr-passes/src/replace_types/linearize.rs | 19 ++++--
 2 files changed, 63 insertions(+), 27 deletions(-)

diff --git a/hugr-passes/src/replace_types/handlers.rs b/hugr-passes/src/replace_types/handlers.rs
index b11c49e..38b37ca 100644
--- a/hugr-passes/src/replace_types/handlers.rs
+++ b/hugr-passes/src/replace_types/handlers.rs
@@ -2,7 +2,8 @@
 //! and [`DelegatingLinearizer::register_callback`](super::DelegatingLinearizer::register_callback)
 
 use hugr_core::builder::{
-    DFGBuilder, Dataflow, DataflowHugr, DataflowSubContainer, SubContainer, endo_sig, inout_sig,
+    BuildError, DFGBuilder, Dataflow, DataflowHugr, DataflowSubContainer, SubContainer, endo_sig,
+    inout_sig,
 };
 use hugr_core::extension::prelude::{UnwrapBuilder, option_type};
 use hugr_core::ops::constant::CustomConst;
@@ -101,6 +102,27 @@ pub fn value_array_const(
     generic_array_const::<ValueArray>(val, repl)
 }
 
+/// The error for an element type that cannot be handled inside a [`NodeTemplate::CompoundOp`],
+/// e.g. because it contains type variables or needs a [`NodeTemplate::Call`].
+fn nested_err(ty: &Type, e: BuildError) -> LinearizeError {
+    LinearizeError::NestedTemplateError(Box::new(ty.clone()), Box::new(e))
+}
+
+/// The length and element type of an array.
+///
+/// # Errors
+///
+/// If the length is a type variable, as handlers are usable only after monomorphization.
+fn array_args<AK: ArrayKind>(args: &[TypeArg]) -> Result<(&u64, &Type), LinearizeError> {
+    match args {
+        [TypeArg::BoundedNat(n), TypeArg::Runtime(ty)] => Ok((n, ty)),
+        [n, ty] => Err(LinearizeError::UnsupportedType(Box::new(
+            AK::ty_parametric(n.clone(), ty.clone())?,
+        ))),
+        _ => panic!("Illegal TypeArgs to array: {args:?}"),
+    }
+}
+
 /// Handler for copying/discarding arrays if their elements have become linear.
 ///
 /// Generic over the concrete array implementation.
@@ -111,9 +133,7 @@ pub fn linearize_generic_array<AK: ArrayKind>(
 ) -> Result<NodeTemplate, LinearizeError> {
     // Require known length i.e. usable only after monomorphization, due to no-variables limitation
     // restriction on NodeTemplate::CompoundOp
-    let [TypeArg::BoundedNat(n), TypeArg::Runtime(ty)] = args else {
-        panic!("Illegal TypeArgs to array: {args:?}")
-    };
+    let (n, ty) = array_args::<AK>(args)?;
     if num_outports == 0 {
         // "Simple" discard - first map each element to unit (via type-specific discard):
         let map_fn = {
@@ -125,7 +145,8 @@ pub fn linearize_generic_array<AK: ArrayKind>(
                     LinearizeError::NestedTemplateError(Box::new(ty.clone()), Box::new(e))
                 })?;
             let ret = dfb.add_load_value(Value::unary_unit_sum());
-            dfb.finish_hugr_with_outputs([ret]).unwrap()
+            dfb.finish_hugr_with_outputs([ret])
+                .map_err(|e| nested_err(ty, e))?
         };
         // Now array.scan that over the input array to get an array of unit (which can be discarded)
         let array_scan = GenericArrayScan::<AK>::new(ty.clone(), Type::UNIT, vec![], *n);
@@ -142,7 +163,8 @@ pub fn linearize_generic_array<AK: ArrayKind>(
                 .unwrap()
                 .out_wire(0);
             AK::build_discard(&mut dfb, Type::UNIT, *n, unit_arr).unwrap();
-            dfb.finish_hugr_with_outputs([]).unwrap()
+            dfb.finish_hugr_with_outputs([])
+                .map_err(|e| nested_err(ty, e))?
         })));
     }
     // The num_outports>1 case will simplify, and unify with the previous, when we have a
@@ -164,7 +186,8 @@ pub fn linearize_generic_array<AK: ArrayKind>(
             let none = dfb
                 .add_dataflow_op(Tag::new(0, vec![type_row![], ty.clone().into()]), [])
                 .unwrap();
-            dfb.finish_hugr_with_outputs(none.outputs()).unwrap()
+            dfb.finish_hugr_with_outputs(none.outputs())
+                .map_err(|e| nested_err(ty, e))?
         };
         let repeats = vec![GenericArrayRepeat::<AK>::new(option_ty.clone(), *n); num_new];
         let fn_none = dfb.add_load_value(Value::function(fn_none).unwrap());
@@ -236,7 +259,7 @@ pub fn linearize_generic_array<AK: ArrayKind>(
             .unwrap()
             .outputs_arr();
         dfb.finish_hugr_with_outputs([copy0, new_idx].into_iter().chain(opt_arrays))
-            .unwrap()
+            .map_err(|e| nested_err(ty, e))?
     };
     let [in_array] = dfb.input_wires_arr();
     let scan1 = GenericArrayScan::<AK>::new(
@@ -270,7 +293,8 @@ pub fn linearize_generic_array<AK: ArrayKind>(
             DFGBuilder::new(inout_sig(Type::from(option_ty.clone()), ty.clone())).unwrap();
         let [opt] = dfb.input_wires_arr();
         let [val] = dfb.build_unwrap_sum(1, option_sty.clone(), opt).unwrap();
-        dfb.finish_hugr_with_outputs([val]).unwrap()
+        dfb.finish_hugr_with_outputs([val])
+            .map_err(|e| nested_err(ty, e))?
     };
 
     let unwrap_scan = GenericArrayScan::<AK>::new(option_ty.clone(), ty.clone(), vec![], *n);
@@ -287,7 +311,8 @@ pub fn linearize_generic_array<AK: ArrayKind>(
         .collect::<Vec<_>>();
 
     Ok(NodeTemplate::CompoundOp(Box::new(
-        dfb.finish_hugr_with_outputs(out_arrays).unwrap(),
+        dfb.finish_hugr_with_outputs(out_arrays)
+            .map_err(|e| nested_err(ty, e))?,
     )))
 }
 
@@ -314,9 +339,7 @@ pub fn copy_discard_array(
 ) -> Result<NodeTemplate, LinearizeError> {
     // Require known length i.e. usable only after monomorphization, due to no-variables limitation
     // restriction on NodeTemplate::CompoundOp
-    let [TypeArg::BoundedNat(n), TypeArg::Runtime(ty)] = args else {
-        panic!("Illegal TypeArgs to array: {args:?}")
-    };
+    let (n, ty) = array_args::<Array>(args)?;
     if ty.copyable() {
         // For arrays with copyable elements, we can just use the clone/discard ops
         if num_outports == 0 {
@@ -331,7 +354,7 @@ pub fn copy_discard_array(
             let array_ty = array_type(*n, ty.clone());
             Ok(NodeTemplate::CompoundOp(Box::new({
                 let mut dfb =
-                    DFGBuilder::new(inout_sig(array_ty.clone(), vec![array_ty; *n as usize]))
+                    DFGBuilder::new(inout_sig(array_ty.clone(), vec![array_ty; num_outports]))
                         .unwrap();
                 let [mut arr] = dfb.input_wires_arr();
                 let mut outs = vec![];
@@ -341,7 +364,8 @@ pub fn copy_discard_array(
                     outs.push(arr2);
                 }
                 outs.push(arr);
-                dfb.finish_hugr_with_outputs(outs).unwrap()
+                dfb.finish_hugr_with_outputs(outs)
+                    .map_err(|e| nested_err(ty, e))?
             })))
         }
     } else {
@@ -361,9 +385,7 @@ pub fn copy_discard_borrow_array(
 ) -> Result<NodeTemplate, LinearizeError> {
     // Require known length i.e. usable only after monomorphization, due to no-variables limitation
     // restriction on NodeTemplate::CompoundOp
-    let [TypeArg::BoundedNat(n), TypeArg::Runtime(ty)] = args else {
-        panic!("Illegal TypeArgs to borrow array: {args:?}")
-    };
+    let (n, ty) = array_args::<BorrowArray>(args)?;
     if ty.copyable() {
         // For arrays with copyable elements, we can just use the clone/discard ops
         if num_outports == 0 {
@@ -378,7 +400,7 @@ pub fn copy_discard_borrow_array(
             let array_ty = borrow_array_type(*n, ty.clone());
             Ok(NodeTemplate::CompoundOp(Box::new({
                 let mut dfb =
-                    DFGBuilder::new(inout_sig(array_ty.clone(), vec![array_ty; *n as usize]))
+                    DFGBuilder::new(inout_sig(array_ty.clone(), vec![array_ty; num_outports]))
                         .unwrap();
                 let [mut arr] = dfb.input_wires_arr();
                 let mut outs = vec![];
@@ -388,7 +410,8 @@ pub fn copy_discard_borrow_array(
                     outs.push(arr2);
                 }
                 outs.push(arr);
-                dfb.finish_hugr_with_outputs(outs).unwrap()
+                dfb.finish_hugr_with_outputs(outs)
+                    .map_err(|e| nested_err(ty, e))?
             })))
         }
     } else if num_outports == 0 {
@@ -462,7 +485,9 @@ pub fn copy_discard_borrow_array(
                 let (arr, elem) = not_borrowed_case
                     .add_borrow_array_borrow(ty.clone(), *n, arr, idx_u)
                     .unwrap();
-                elem_discard.add(&mut not_borrowed_case, [elem]).unwrap();
+                elem_discard
+                    .add(&mut not_borrowed_case, [elem])
+                    .map_err(|e| nested_err(ty, e))?;
                 not_borrowed_case.finish_with_outputs([arr]).unwrap();
             }
             let [arr_out] = cond2.finish_sub_container().unwrap().outputs_arr();
@@ -477,7 +502,9 @@ pub fn copy_discard_borrow_array(
         }
         let [loop_pred] = cond.finish_sub_container().unwrap().outputs_arr();
         let [] = tl.finish_with_outputs(loop_pred, []).unwrap().outputs_arr();
-        let h = dfb.finish_hugr_with_outputs([]).unwrap();
+        let h = dfb
+            .finish_hugr_with_outputs([])
+            .map_err(|e| nested_err(ty, e))?;
         Ok(NodeTemplate::CompoundOp(Box::new(h)))
     } else {
         // For linear elements we have to fall back to the generic linearization implementation
diff --git a/hugr-passes/src/replace_types/linearize.rs b/hugr-passes/src/replace_types/linearize.rs
index 47e3a1f..0e0fb15 100644
--- a/hugr-passes/src/replace_types/linearize.rs
+++ b/hugr-passes/src/replace_types/linearize.rs
@@ -271,6 +271,10 @@ impl Linearizer for DelegatingLinearizer {
         }
         assert!(num_outports != 1);
 
+        // E.g. a Call in a copy/discard template, or a type variable in `typ`: these
+        // cannot be used inside the compound templates built below.
+        let nested_err =
+            |e| LinearizeError::NestedTemplateError(Box::new(typ.clone()), Box::new(e));
         match typ.as_type_enum() {
             TypeEnum::Sum(sum_type) => {
                 let variants = sum_type
@@ -292,7 +296,7 @@ impl Linearizer for DelegatingLinearizer {
                         } else {
                             self.copy_discard_op(ty, num_outports)?
                                 .add(&mut case_b, [inp])
-                                .unwrap()
+                                .map_err(nested_err)?
                                 .outputs()
                                 .collect()
                         };
@@ -315,13 +319,15 @@ impl Linearizer for DelegatingLinearizer {
                     case_b.finish_with_outputs(outputs).unwrap();
                 }
                 Ok(NodeTemplate::CompoundOp(Box::new(
-                    cb.finish_hugr().unwrap(),
+                    cb.finish_hugr().map_err(|e| nested_err(e.into()))?,
                 )))
             }
             TypeEnum::Extension(cty) => {
                 if let Some((copy, discard)) = self.copy_discard.get(cty) {
                     Ok(if num_outports == 0 {
                         discard.clone()
+                    } else if num_outports == 2 {
+                        copy.clone()
                     } else {
                         let mut dfb = DFGBuilder::new(inout_sig(
                             typ.clone(),
@@ -331,14 +337,17 @@ impl Linearizer for DelegatingLinearizer {
                         let [mut src] = dfb.input_wires_arr();
                         let mut outputs = vec![];
                         for _ in 0..num_outports - 1 {
-                            let [out0, out1] =
-                                copy.clone().add(&mut dfb, [src]).unwrap().outputs_arr();
+                            let [out0, out1] = copy
+                                .clone()
+                                .add(&mut dfb, [src])
+                                .map_err(nested_err)?
+                                .outputs_arr();
                             outputs.push(out0);
                             src = out1;
                         }
                         outputs.push(src);
                         NodeTemplate::CompoundOp(Box::new(
-                            dfb.finish_hugr_with_outputs(outputs).unwrap(),
+                            dfb.finish_hugr_with_outputs(outputs).map_err(nested_err)?,
                         ))
                     })
                 } else {
-- 
2.43.0


From b8d9bf118857524afefcfa0d358deb471dcdd155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:59 +0000
Subject: [PATCH 67/73] fix: hugr --extensions panicked on extensions that use
 types of other extensions

---
 hugr-cli/src/hugr_io.rs | 9 +++++++--
 hugr-cli/src/lib.rs     | 3 +++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/hugr-cli/src/hugr_io.rs b/hugr-cli/src/hugr_io.rs
index ea9631b..03c26bc 100644
--- a/hugr-cli/src/hugr_io.rs
+++ b/hugr-cli/src/hugr_io.rs
@@ -114,11 +114,16 @@ impl HugrInputArgs {
             hugr::std_extensions::STD_REG.to_owned()
         };
 
+        let mut loaded: Vec<Extension> = Vec::with_capacity(self.extensions.len());
         for ext in &self.extensions {
             let f = std::fs::File::open(ext)?;
-            let ext: Extension = serde_json::from_reader(f)?;
-            reg.register_updated(ext);
+            loaded.push(serde_json::from_reader(f)?);
         }
+        // The definitions may refer to each other and to the registry.
+        reg.extend(ExtensionRegistry::new_with_extension_resolution(
+            loaded,
+            &(&reg).into(),
+        )?);
 
         Ok(reg)
     }
diff --git a/hugr-cli/src/lib.rs b/hugr-cli/src/lib.rs
index da41e73..4b1f1ec 100644
--- a/hugr-cli/src/lib.rs
+++ b/hugr-cli/src/lib.rs
@@ -86,6 +86,9 @@ pub enum CliError {
     /// Error parsing input.
     #[error("Error parsing package.")]
     Parse(#[from] serde_json::Error),
+    /// Error resolving the definitions in the additional extensions.
+    #[error("Error resolving extensions.")]
+    Extensions(#[from] hugr::extension::resolution::ExtensionResolutionError),
     #[error("Error validating HUGR.")]
     /// Errors produced by the `validate` subcommand.
     Validate(#[from] PackageValidationError),
-- 
2.43.0


From 9c86596663b033505f17d9cc764d877839097457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:27 +0000
Subject: [PATCH 68/73] fix: hugr-py: deleting a link hid later links of its
 ports

---
 hugr-py/src/hugr/hugr/base.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/hugr-py/src/hugr/hugr/base.py b/hugr-py/src/hugr/hugr/base.py
index 1ab0bd7..7fc879c 100644
--- a/hugr-py/src/hugr/hugr/base.py
+++ b/hugr-py/src/hugr/hugr/base.py
@@ -567,10 +567,24 @@ class Hugr(Mapping[Node, NodeData], Generic[OpVarCov]):
             sub_offset = next(
                 i for i, inp in enumerate(self.linked_ports(src)) if inp == dst
             )
-            self._links.delete_left(_SubPort(src, sub_offset))
         except StopIteration:
             return
-        # TODO make sure sub-offset is handled correctly
+        src_sub = _SubPort(src, sub_offset)
+        dst_sub = self._links[src_sub]
+        self._links.delete_left(src_sub)
+
+        # The sub-offsets in use at a port are contiguous: move the links after
+        # the deleted one down.
+        next_src = src_sub.next_sub_offset()
+        while (other_dst := self._links.get_right(next_src)) is not None:
+            self._links.delete_left(next_src)
+            self._links.insert_left(src_sub, other_dst)
+            src_sub, next_src = next_src, next_src.next_sub_offset()
+        next_dst = dst_sub.next_sub_offset()
+        while (other_src := self._links.get_left(next_dst)) is not None:
+            self._links.delete_right(next_dst)
+            self._links.insert_left(other_src, dst_sub)
+            dst_sub, next_dst = next_dst, next_dst.next_sub_offset()
 
     def entrypoint_op(self) -> OpVarCov:
         """The operation of the root node.
-- 
2.43.0


From 98eb596fc638f4983a87a9985cb69214e194e0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:27 +0000
Subject: [PATCH 69/73] fix: hugr-py: deleting a node left links of it and
 failed for unlinked ports

---
 hugr-py/src/hugr/hugr/base.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hugr-py/src/hugr/hugr/base.py b/hugr-py/src/hugr/hugr/base.py
index 7fc879c..86c9673 100644
--- a/hugr-py/src/hugr/hugr/base.py
+++ b/hugr-py/src/hugr/hugr/base.py
@@ -466,10 +466,12 @@ class Hugr(Mapping[Node, NodeData], Generic[OpVarCov]):
         parent = self[node].parent
         if parent:
             self[parent].children.remove(node)
-        for inp, _ in self.incoming_links(node):
-            self._links.delete_right(_SubPort(inp))
-        for out, _ in self.outgoing_links(node):
-            self._links.delete_left(_SubPort(out))
+        for inp, sources in list(self.incoming_links(node)):
+            for source in sources:
+                self.delete_link(source, inp)
+        for out, targets in list(self.outgoing_links(node)):
+            for target in targets:
+                self.delete_link(out, target)
 
         weight, self._nodes[node.idx] = self._nodes[node.idx], None
 
-- 
2.43.0


From 52b19c61154034a2c32e9eb4ca4919fc4fbe671b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:27 +0000
Subject: [PATCH 70/73] fix: hugr-py: graphs inserted into another shared their
 metadata with it

---
 hugr-py/src/hugr/hugr/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hugr-py/src/hugr/hugr/base.py b/hugr-py/src/hugr/hugr/base.py
index 86c9673..dd701e7 100644
--- a/hugr-py/src/hugr/hugr/base.py
+++ b/hugr-py/src/hugr/hugr/base.py
@@ -937,7 +937,7 @@ class Hugr(Mapping[Node, NodeData], Generic[OpVarCov]):
                 node_data.op,
                 node_parent,
                 num_outs=node_data._num_outs,
-                metadata=node_data.metadata,
+                metadata=dict(node_data.metadata),
             )
 
         for src, dst in hugr._links.items():
-- 
2.43.0


From b9c86daec95a18e563b9586a17803cae368617b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:27 +0000
Subject: [PATCH 71/73] fix: hugr-py: graphs with deleted nodes were stored
 with wrong parents and links

---
 hugr-py/src/hugr/hugr/base.py | 54 ++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/hugr-py/src/hugr/hugr/base.py b/hugr-py/src/hugr/hugr/base.py
index dd701e7..62cbaa0 100644
--- a/hugr-py/src/hugr/hugr/base.py
+++ b/hugr-py/src/hugr/hugr/base.py
@@ -81,8 +81,8 @@ class NodeData:
     children: list[Node] = field(default_factory=list, repr=False)
     metadata: dict[str, Any] = field(default_factory=dict)
 
-    def _to_serial(self, node: Node) -> SerialOp:
-        o = self.op._to_serial(self.parent if self.parent else node)
+    def _to_serial(self, parent: Node) -> SerialOp:
+        o = self.op._to_serial(parent)
 
         return SerialOp(root=o)  # type: ignore[arg-type]
 
@@ -960,6 +960,8 @@ class Hugr(Mapping[Node, NodeData], Generic[OpVarCov]):
 
     def _to_serial(self) -> SerialHugr:
         """Serialize the HUGR."""
+        serial_order = list(self._serial_order())
+        serial_idx = {node: idx for idx, node in enumerate(serial_order)}
 
         def _serialize_link(
             link: tuple[_SO, _SI],
@@ -968,30 +970,54 @@ class Hugr(Mapping[Node, NodeData], Generic[OpVarCov]):
         ]:
             src, dst = link
             s, d = self._constrain_offset(src.port), self._constrain_offset(dst.port)
-            return (src.port.node.idx, s), (dst.port.node.idx, d)
+            return (serial_idx[src.port.node], s), (serial_idx[dst.port.node], d)
 
         nodes: list[SerialOp] = []
         metadata = []
-        entrypoint = 0
-        for node_idx, data in enumerate(self._nodes):
-            if data is None:
-                continue
-            node = Node(node_idx)
-            serial_idx = len(nodes)
-
+        for node in serial_order:
+            data = self[node]
+            serial_node = Node(serial_idx[node], {})
+            serial_parent = (
+                Node(serial_idx[data.parent], {}) if data.parent else serial_node
+            )
             # non contiguous indices will be erased
-            nodes.append(data._to_serial(Node(serial_idx, {})))
+            nodes.append(data._to_serial(serial_parent))
             metadata.append(data.metadata if data.metadata else None)
-            if self.entrypoint == node:
-                entrypoint = serial_idx
 
         return SerialHugr(
             nodes=nodes,
             edges=[_serialize_link(link) for link in self._links.items()],
             metadata=metadata,
-            entrypoint=entrypoint,
+            entrypoint=serial_idx.get(self.entrypoint, 0),
         )
 
+    def _serial_order(self) -> Iterator[Node]:
+        """The order of the nodes in the serialized form.
+
+        This is the order of the node indices, except where nodes added in the place
+        of deleted ones would come before their parent or an earlier sibling.
+        """
+        seen: set[Node] = set()
+        # The children of each node that still have to be visited
+        remaining: dict[Node, Iterator[Node]] = {}
+        for node in self:
+            # The ancestors of the node that have not been visited yet
+            path = [node]
+            while path[-1] not in seen:
+                parent = self[path[-1]].parent
+                if parent is None:
+                    break
+                path.append(parent)
+            if path[-1] not in seen:
+                seen.add(path[-1])
+                yield path[-1]
+            for parent, child in zip(path[:0:-1], path[-2::-1], strict=True):
+                children = remaining.setdefault(parent, iter(self[parent].children))
+                while child not in seen:
+                    sibling = next(children)
+                    seen.add(sibling)
+                    yield sibling
+
     def _constrain_offset(self, p: P) -> PortOffset | None:
         """Constrain an offset to be a valid encoded port offset.
 
-- 
2.43.0


From e2eb6247723155f34819c0f609b4d4de1678754e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:19 +0000
Subject: [PATCH 72/73] fix: hugr-py: sorted_region_nodes failed for regions
 with edges into other regions

---
 hugr-py/src/hugr/hugr/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hugr-py/src/hugr/hugr/base.py b/hugr-py/src/hugr/hugr/base.py
index 62cbaa0..dfb3914 100644
--- a/hugr-py/src/hugr/hugr/base.py
+++ b/hugr-py/src/hugr/hugr/base.py
@@ -281,6 +281,8 @@ class Hugr(Mapping[Node, NodeData], Generic[OpVarCov]):
             yield new_node
 
             for neigh in self.output_neighbours(new_node):
+                if self[neigh].parent != parent:
+                    continue
                 visit_dict[neigh] -= 1
                 if visit_dict[neigh] == 0:
                     del visit_dict[neigh]
-- 
2.43.0


From 2b8abba43bf0408543b26470bc1c3d128a49642c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:19 +0000
Subject: [PATCH 73/73] fix: hugr-py: TrackedDfg.add dropped the metadata it
 was given

---
 hugr-py/src/hugr/build/tracked_dfg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hugr-py/src/hugr/build/tracked_dfg.py b/hugr-py/src/hugr/build/tracked_dfg.py
index 439d568..15f9f0a 100644
--- a/hugr-py/src/hugr/build/tracked_dfg.py
+++ b/hugr-py/src/hugr/build/tracked_dfg.py
@@ -157,7 +157,7 @@ class TrackedDfg(Dfg):
             [OutPort(Node(3), 0)]
         """
         wires = self._to_wires(com.incoming)
-        n = self.add_op(com.op, *wires)
+        n = self.add_op(com.op, *wires, metadata=metadata)
 
         for port_offset, com_wire in enumerate(com.incoming):
             if isinstance(com_wire, int):
-- 
2.43.0

