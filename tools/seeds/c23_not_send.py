prop='C23'
needs='a client that sends the strings of a multi-string value, or an iterator over big data, to another thread'
breaks='the iterator over big data segments shares its position through an Rc-like raw marker, so it is no longer Send or Sync'
rejected=True
edits=[('src/big_data.rs','''pub struct BigDataSlices<'h, B: SplitByteSlice> {''','''pub struct BigDataSlices<'h, B: SplitByteSlice> {
    _owner: core::marker::PhantomData<*const B>,'''),
('src/big_data.rs','''        Ok(Self {
            hive,
            big_data_list_item_ranges,''','''        Ok(Self {
            _owner: core::marker::PhantomData,
            hive,
            big_data_list_item_ranges,''')]
demo=r'''
use nt_hive::*;
fn send<T: Send + Sync>() {}
fn main() { send::<BigDataSlices<'static, &'static [u8]>>(); send::<RegMultiSZStrings<'static, &'static [u8]>>(); }
'''
