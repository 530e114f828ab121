//@rewrite $s . chars ( ) . any ( | $c | $*b ) ==> { let cs__ = $s.x_chars(); let mut f__ = false; let mut i__: usize = 0; while i__ < cs__.len() { let $c = cs__[i__]; if $b { f__ = true; break; } i__ += 1; } f__ }
//@rewrite $s . chars ( ) . all ( | $c | $*b ) ==> { let cs__ = $s.x_chars(); let mut f__ = true; let mut i__: usize = 0; while i__ < cs__.len() { let $c = cs__[i__]; if !($b) { f__ = false; break; } i__ += 1; } f__ }
//@rewrite $s . chars ( ) . all ( $f ) ==> { let cs__ = $s.x_chars(); let mut f__ = true; let mut i__: usize = 0; while i__ < cs__.len() { let c__ = cs__[i__]; if !$f(c__) { f__ = false; break; } i__ += 1; } f__ }
