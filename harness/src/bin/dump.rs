use std::io::Read;
fn main(){ let mut s=String::new(); std::io::stdin().read_to_string(&mut s).unwrap();
 match protox_parse::parse("t.proto",&s){ Ok(mut f)=>{ let sci=f.source_code_info.take(); println!("{:?}",f); for l in sci.unwrap().location { println!("  {:?} {:?} L={:?} T={:?} D={:?}",l.path,l.span,l.leading_comments,l.trailing_comments,l.leading_detached_comments);} }
 Err(e)=>{println!("ERR {:?}",e); println!("{:?}",miette::Report::new(e));} } }
