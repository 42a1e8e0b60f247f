//! Names one instantiation of every generic public entry point of `telda2`, so
//! that the fact extractor sees monomorphic MIR for it.  Never executed: the
//! environment types below stand for "any" environment; the analyses treat
//! calls into them as opaque events.
use std::io::{self, BufRead, Read, Seek, SeekFrom, Write};
use telda2::{
    aalv::{obj::*, AalvReader, AalvWriter, Section},
    blf4::{Blf4, TrapMode},
    disassemble::{disassemble_instruction, DisassembledInstruction},
    machine::{Cpu, EmulatedKernel, Machine},
    mem::{Io, LazyMain, MainMemory},
    source::{process, write_data_operand, DataOperand, LabelRead, ProcessedSource, SourceLines},
};

extern "Rust" {
    fn any_mem_read(m: *mut AnyMem, addr: u32) -> u8;
    fn any_mem_write(m: *mut AnyMem, addr: u32, byte: u8);
    fn any_io_read(m: *mut AnyIo, addr: u8) -> u8;
    fn any_io_write(m: *mut AnyIo, addr: u8, val: u8);
    fn any_file_read(m: *mut AnyFile, buf: &mut [u8]) -> io::Result<usize>;
    fn any_file_fill(m: *mut AnyFile) -> io::Result<&'static [u8]>;
    fn any_file_consume(m: *mut AnyFile, n: usize);
    fn any_file_write(m: *mut AnyFile, buf: &[u8]) -> io::Result<usize>;
    fn any_file_flush(m: *mut AnyFile) -> io::Result<()>;
    fn any_file_seek(m: *mut AnyFile, p: SeekFrom) -> io::Result<u64>;
    fn any_lookup(p: u16) -> Option<&'static str>;
    fn any_label(i: usize, l: LabelRead) -> u16;
}

pub struct AnyMem(u8);
impl MainMemory for AnyMem {
    fn read(&mut self, addr: u32) -> u8 {
        unsafe { any_mem_read(self, addr) }
    }
    fn write(&mut self, addr: u32, byte: u8) {
        unsafe { any_mem_write(self, addr, byte) }
    }
}
pub struct AnyIo(u8);
impl Io for AnyIo {
    fn read(&mut self, addr: u8) -> u8 {
        unsafe { any_io_read(self, addr) }
    }
    fn write(&mut self, addr: u8, val: u8) {
        unsafe { any_io_write(self, addr, val) }
    }
}
pub struct AnyFile(u8);
impl Read for AnyFile {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        unsafe { any_file_read(self, buf) }
    }
}
impl BufRead for AnyFile {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        unsafe { any_file_fill(self) }
    }
    fn consume(&mut self, n: usize) {
        unsafe { any_file_consume(self, n) }
    }
}
impl Write for AnyFile {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        unsafe { any_file_write(self, buf) }
    }
    fn flush(&mut self) -> io::Result<()> {
        unsafe { any_file_flush(self) }
    }
}
impl Seek for AnyFile {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        unsafe { any_file_seek(self, p) }
    }
}

pub fn h_execute(cpu: &mut Blf4, m: &mut AnyMem) -> Result<(), TrapMode> {
    cpu.execute_instruction(m)
}
pub fn h_execute_once(m: &mut Machine<AnyMem, Blf4>) -> Result<(), TrapMode> {
    m.execute_once()
}
pub fn h_run(m: &mut Machine<AnyMem, Blf4>) -> TrapMode {
    m.run_until_abort()
}
pub fn h_install<K: EmulatedKernel<Blf4> + 'static>(m: &mut Machine<AnyMem, Blf4>, k: K) -> bool {
    m.install_emulated_kernel(k)
}
pub fn h_load(m: &mut Machine<AnyMem, Blf4>, obj: &Object) {
    m.load_user_binary(obj)
}
pub fn h_lazy_read(m: &mut LazyMain<AnyIo>, addr: u32) -> u8 {
    m.read(addr)
}
pub fn h_lazy_write(m: &mut LazyMain<AnyIo>, addr: u32, b: u8) {
    m.write(addr, b)
}
pub fn h_lazy_new(io: AnyIo) -> LazyMain<AnyIo> {
    LazyMain::new(io)
}
pub fn h_lazy_rom(m: LazyMain<AnyIo>, rom: &[u8]) -> LazyMain<AnyIo> {
    m.with_rom(rom)
}
pub fn h_disassemble(m: &mut Machine<AnyMem, Blf4>) -> Result<DisassembledInstruction, TrapMode> {
    disassemble_instruction(m, |p| unsafe { any_lookup(p) })
}
pub fn h_process(l: SourceLines<AnyFile>) -> Result<ProcessedSource, telda2::source::Error> {
    process(l)
}
pub fn h_write_operand(st: SegmentType, mem: &mut Vec<u8>, op: DataOperand) {
    write_data_operand(st, mem, |i, l| unsafe { any_label(i, l) }, op)
}
pub fn h_read_entry(f: &mut AnyFile) -> io::Result<Entry> {
    <Entry as Section>::read(f)
}
pub fn h_write_entry(s: &Entry, f: &mut AnyFile) -> io::Result<()> {
    s.write(f)
}
pub fn h_read_flags(f: &mut AnyFile) -> io::Result<Flags> {
    <Flags as Section>::read(f)
}
pub fn h_write_flags(s: &Flags, f: &mut AnyFile) -> io::Result<()> {
    s.write(f)
}
pub fn h_read_stack(f: &mut AnyFile) -> io::Result<StackSize> {
    <StackSize as Section>::read(f)
}
pub fn h_write_stack(s: &StackSize, f: &mut AnyFile) -> io::Result<()> {
    s.write(f)
}
pub fn h_read_heap(f: &mut AnyFile) -> io::Result<HeapSize> {
    <HeapSize as Section>::read(f)
}
pub fn h_write_heap(s: &HeapSize, f: &mut AnyFile) -> io::Result<()> {
    s.write(f)
}
pub fn h_read_seg(f: &mut AnyFile) -> io::Result<BinarySegment> {
    <BinarySegment as Section>::read(f)
}
pub fn h_write_seg(s: &BinarySegment, f: &mut AnyFile) -> io::Result<()> {
    s.write(f)
}
pub fn h_read_syms(f: &mut AnyFile) -> io::Result<SymbolTable> {
    <SymbolTable as Section>::read(f)
}
pub fn h_write_syms(s: &SymbolTable, f: &mut AnyFile) -> io::Result<()> {
    s.write(f)
}
pub fn h_read_reloc(f: &mut AnyFile) -> io::Result<RelocationTable> {
    <RelocationTable as Section>::read(f)
}
pub fn h_write_reloc(s: &RelocationTable, f: &mut AnyFile) -> io::Result<()> {
    s.write(f)
}
/// Section names, as the trait implementations declare them.
pub fn h_name_entry() -> &'static str {
    <Entry as Section>::NAME
}
pub fn h_name_flags() -> &'static str {
    <Flags as Section>::NAME
}
pub fn h_name_stack() -> &'static str {
    <StackSize as Section>::NAME
}
pub fn h_name_heap() -> &'static str {
    <HeapSize as Section>::NAME
}
pub fn h_name_seg() -> &'static str {
    <BinarySegment as Section>::NAME
}
pub fn h_name_syms() -> &'static str {
    <SymbolTable as Section>::NAME
}
pub fn h_name_reloc() -> &'static str {
    <RelocationTable as Section>::NAME
}
/// A section of its own kind: what the container hands its reader and takes
/// from its writer, for a client that mixes all ways of doing so.
pub struct Probe {
    pub head: [u8; 2],
    pub first: [u8; 4],
    pub firsts: usize,
    pub rest: Vec<u8>,
}
impl Section for Probe {
    const NAME: &'static str = "probe";
    fn read<R: Read>(mut r: R) -> io::Result<Self> {
        let mut head = [0; 2];
        r.read_exact(&mut head)?;
        let mut first = [0; 4];
        let firsts = r.read(&mut first)?;
        let mut rest = Vec::new();
        r.read_to_end(&mut rest)?;
        Ok(Probe { head, first, firsts, rest })
    }
    fn write<W: Write>(&self, mut w: W) -> io::Result<()> {
        w.write_all(&self.head)?;
        w.write(&self.first)?;
        w.write_all(&self.rest)?;
        w.flush()
    }
}
/// The same section, for a client that is content with its first bytes.
pub struct Peek {
    pub head: [u8; 2],
}
impl Section for Peek {
    const NAME: &'static str = "probe";
    fn read<R: Read>(mut r: R) -> io::Result<Self> {
        let mut head = [0; 2];
        r.read_exact(&mut head)?;
        Ok(Peek { head })
    }
    fn write<W: Write>(&self, mut w: W) -> io::Result<()> {
        w.write_all(&self.head)
    }
}
pub fn h_reader_peek(r: &mut AalvReader<AnyFile>) -> Option<io::Result<Peek>> {
    r.read_section()
}
pub fn h_reader_new(f: AnyFile) -> io::Result<AalvReader<AnyFile>> {
    AalvReader::new(f)
}
pub fn h_reader_offset(r: &AalvReader<AnyFile>) -> u64 {
    r.file_offset
}
pub fn h_reader_section(r: &mut AalvReader<AnyFile>) -> Option<io::Result<Probe>> {
    r.read_section()
}
pub fn h_reader_end(r: AalvReader<AnyFile>) -> io::Result<AnyFile> {
    r.end()
}
pub fn h_writer_new(f: AnyFile, off: u64) -> io::Result<AalvWriter<AnyFile>> {
    AalvWriter::new(f, off)
}
pub fn h_writer_section(w: &mut AalvWriter<AnyFile>, s: &Probe) -> io::Result<()> {
    w.write_section(s)
}
pub fn h_writer_finish(w: AalvWriter<AnyFile>) -> io::Result<()> {
    w.finish()
}
pub fn h_writer_drop(w: AalvWriter<AnyFile>) {
    drop(w)
}
pub fn h_object_read(r: &mut AalvReader<AnyFile>) -> io::Result<Object> {
    Object::from_aalv_reader(r)
}
pub fn h_object_write(o: &Object, p: &std::path::Path) -> io::Result<()> {
    o.write_to_file(p)
}
