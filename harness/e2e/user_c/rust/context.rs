pub struct Context { pub who: u8 }
