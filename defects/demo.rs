use starlit::{lit::Lit, solver::Solver, heap::MaxHeap, prop::long::*, clause_arena::*};
fn l(n: isize)->Lit{Lit::from_dimacs(n)}
fn cl(v:&[isize])->Vec<Lit>{v.iter().map(|&x|l(x)).collect()}
fn run(name:&str, f: impl FnOnce()->bool+std::panic::UnwindSafe){ let r=std::panic::catch_unwind(f); println!("{name}: {}", match r{Ok(true)=>"ok",Ok(false)=>"WRONG",Err(_)=>"PANIC"}); }
fn main(){
 run("F2 heap", ||{ // dequeue inner
   let mut h:MaxHeap<usize,u32>=Default::default();
   let vals=[100u32,50,90,40,30,60,70];
   h.resize(7,0); for i in 0..7usize{h.increase(i,|v|*v=vals[i]); h.enqueue(i);} 
   h.dequeue(3usize); let mut out=vec![]; while let Some(k)=h.pop_max(){out.push(vals[k]);} 
   let mut s=out.clone(); s.sort(); s.reverse(); println!("{:?}",out); out==s && out.len()==6});
 run("F3 dup unit", ||{ let mut s=Solver::default(); s.ctx.logger.set_log_level(None); s.add_clause(&cl(&[1]));s.add_clause(&cl(&[1])); s.state.search.prop.trail.steps().len()==1 });
 run("F4 empty clause", ||{ let mut out=vec![]; { let mut s=Solver::default(); s.ctx.logger.set_log_level(None);
   s.write_proof(Box::new(starlit::proof::drat::Drat::new(flussab::DeferredWriter::from_write(&mut out))));
   for c in [[1,2],[1,-2],[-1,2],[-1,-2]]{s.add_clause(&cl(&c));} let r=s.solve(); assert!(!r); s.close_proof().unwrap();} 
   let t=String::from_utf8(out).unwrap(); println!("{:?}",t); t.ends_with("\n0\n")});
 run("F4b contradicting units", ||{ let mut out=vec![]; { let mut s=Solver::default(); s.ctx.logger.set_log_level(None);
   s.write_proof(Box::new(starlit::proof::drat::Drat::new(flussab::DeferredWriter::from_write(&mut out))));
   s.add_clause(&cl(&[1]));s.add_clause(&cl(&[-1])); let r=s.solve(); assert!(!r); s.close_proof().unwrap();} 
   let t=String::from_utf8(out).unwrap(); println!("{:?}",t); t=="0\n"});
 run("F5 double delete", ||{ let mut a=LongClauses::default(); let c=a.add_clause(LongHeader::new_input_clause(),&cl(&[1,2,3])).unwrap(); a.add_clause(LongHeader::new_input_clause(),&cl(&[1,2,3])).unwrap();
   a.delete_clause(c); let u=a.utilization().used; a.delete_clause(c); a.utilization().used==u});
 run("F6 shrink", ||{ let mut a=LongClauses::default(); let c=a.add_clause(LongHeader::new_input_clause(),&cl(&[1,2,3,4,5,6])).unwrap(); a.header_mut(c).set_search_pos(3); a.shrink_clause(c,4); a.header(c).search_pos()+2<4});
 run("F7 add after solve", ||{ let mut s=Solver::default(); s.ctx.logger.set_log_level(None); s.add_clause(&cl(&[1,2])); assert!(s.solve());
   // block models until unsat
   let mut n=0; loop { let m:Vec<Lit>=(1..=2).map(|v|{let x=l(v); x ^ s.value(x).unwrap()}).collect(); s.add_clause(&m); n+=1; if !s.solve(){break;} if n>10 {return false;} } println!("models {n}"); n==3});
}
