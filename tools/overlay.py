"""A view of /repo in which keramics-compression builds.

The commit lacks keramics-compression/src/lzxpress.rs, so keramics-compression and everything above it
do not build. The overlay consists of links into /repo, with a stand-in for that one file when /repo
does not have it (LZXPRESS itself is then out of reach)."""
import os, shutil

STAND_IN = '''//! Stand-in for the file that is missing from the commit.
use keramics_core::ErrorTrace;

pub struct LzxpressContext {
    pub uncompressed_data_size: usize,
}

impl LzxpressContext {
    pub fn new() -> Self {
        Self { uncompressed_data_size: 0 }
    }

    pub fn decompress(&mut self, _: &[u8], _: &mut [u8]) -> Result<(), ErrorTrace> {
        Err(keramics_core::error_trace_new!("Not available"))
    }
}

pub struct LzxpressHuffmanContext {
    pub uncompressed_data_size: usize,
}

impl LzxpressHuffmanContext {
    pub fn new() -> Self {
        Self { uncompressed_data_size: 0 }
    }

    pub fn decompress(&mut self, _: &[u8], _: &mut [u8]) -> Result<(), ErrorTrace> {
        Err(keramics_core::error_trace_new!("Not available"))
    }
}
'''

def link(source, destination):
    if os.path.islink(destination):
        if os.readlink(destination) == source:
            return
        os.unlink(destination)
    os.symlink(source, destination)

def prune(directory, names):
    for name in os.listdir(directory):
        if name not in names:
            path = os.path.join(directory, name)
            if os.path.isdir(path) and not os.path.islink(path):
                shutil.rmtree(path)
            else:
                os.unlink(path)

def generate(repo, out):
    os.makedirs(out, exist_ok=True)
    names = [n for n in os.listdir(repo) if n not in ('target', '.git', '.cargo')]
    prune(out, names)
    for n in names:
        if n != 'keramics-compression':
            link(os.path.join(repo, n), os.path.join(out, n))
    source, destination = os.path.join(repo, 'keramics-compression'), os.path.join(out, 'keramics-compression')
    os.makedirs(os.path.join(destination, 'src'), exist_ok=True)
    top = [n for n in os.listdir(source) if n not in ('src', 'target')]
    prune(destination, top + ['src'])
    for n in top:
        link(os.path.join(source, n), os.path.join(destination, n))
    files = os.listdir(os.path.join(source, 'src'))
    prune(os.path.join(destination, 'src'), files + ['lzxpress.rs'])
    for n in files:
        link(os.path.join(source, 'src', n), os.path.join(destination, 'src', n))
    path = os.path.join(destination, 'src', 'lzxpress.rs')
    if 'lzxpress.rs' not in files:
        if os.path.islink(path):
            os.unlink(path)
        if not os.path.exists(path) or open(path).read() != STAND_IN:
            with open(path, 'w') as f:
                f.write(STAND_IN)
