/// Appended to the licensing source: reaches its private parts for the harness.
pub mod access {
    use super::*;
    #[derive(Clone, Debug, PartialEq)]
    pub struct Fields {
        pub name: String,
        pub email: String,
        pub company: String,
        pub from: u64,
        pub until: u64,
        pub version: usize,
        pub standard: bool,
        pub signature: String,
    }
    fn mk(f: &Fields) -> License {
        License {
            name: f.name.clone(),
            email: f.email.clone(),
            company: f.company.clone(),
            valid_from: f.from,
            valid_until: f.until,
            license_version: f.version,
            level: if f.standard { LicenseLevel::Standard } else { LicenseLevel::NoLicense },
            signature: f.signature.clone(),
        }
    }
    fn un(l: License) -> Fields {
        Fields { name: l.name, email: l.email, company: l.company, from: l.valid_from, until: l.valid_until, version: l.license_version, standard: l.level == LicenseLevel::Standard, signature: l.signature }
    }
    pub fn sign(f: &Fields, seed: u8) -> Fields {
        let mut l = mk(f);
        l.sign(&[seed; 32]).unwrap();
        un(l)
    }
    pub fn create(f: &Fields) -> Fields {
        let t = |s| UNIX_EPOCH + Duration::from_secs(s);
        un(License::create(f.name.clone(), f.email.clone(), f.company.clone(), t(f.from), t(f.until), if f.standard { LicenseLevel::Standard } else { LicenseLevel::NoLicense }))
    }
    pub fn check(f: &Fields, now: Duration, seeds: &[u8]) -> Result<bool, String> {
        let keys: Vec<[u8; 32]> = seeds.iter().map(|s| SigningKey::from_bytes(&[*s; 32]).verifying_key().to_bytes()).collect();
        mk(f).verify_with_keys(UNIX_EPOCH + now, keys.iter()).map_err(|e| e.to_string())
    }
    pub fn to_json(f: &Fields) -> String {
        mk(f).to_json()
    }
    pub fn from_json(s: &str) -> Result<Fields, String> {
        License::from_json(s).map(un).map_err(|e| e.to_string())
    }
    pub fn in_path(p: &Path) -> Result<bool, String> {
        verify_license_in_path(p).map(|l| l == LicenseLevel::Standard).map_err(|e| e.to_string())
    }
}
