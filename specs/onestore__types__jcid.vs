#fn JcId::parse
ensures match r { Ok(v) => old(reader).rem().len() >= 4 && v == JcId(crate::ext::le32(old(reader).rem())), Err(_) => old(reader).rem().len() < 4 }
