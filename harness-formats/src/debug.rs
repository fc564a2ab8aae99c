//! C55 debug output.

use crate::{apple, ewf, ext, fat, ntfs, qcow, vhd, vhdx, volumes};
use pbt::*;

/// Runs a case with debug output, which the engine discards.
fn debugged(g: &mut Gen, case: fn(&mut Gen) -> CaseResult) -> CaseResult {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            keramics_core::mediator::Mediator::new(false).make_current();
        }
    }
    let _off = Off;
    keramics_core::mediator::Mediator::new(true).make_current();
    case(g)
}

pub static C55: Property = Property {
    id: "C55",
    rule: "As in the property the facet is of, with debug output.",
    assumptions: &[],
    facets: &[
        Facet { name: "MBR partitions", work: Work::Random(100, 1000), case: |g| debugged(g, volumes::C40.facets[0].case) },
        Facet { name: "MBR damaged", work: Work::Random(100, 1000), case: |g| debugged(g, volumes::C40.facets[1].case) },
        Facet { name: "GPT partitions", work: Work::Random(75, 750), case: |g| debugged(g, volumes::C41.facets[0].case) },
        Facet { name: "GPT checksum", work: Work::Random(75, 750), case: |g| debugged(g, volumes::C41.facets[1].case) },
        Facet { name: "GPT damaged", work: Work::Random(75, 750), case: |g| debugged(g, volumes::C41.facets[2].case) },
        Facet { name: "APM partitions", work: Work::Random(75, 750), case: |g| debugged(g, volumes::C42.facets[0].case) },
        Facet { name: "APM damaged", work: Work::Random(75, 750), case: |g| debugged(g, volumes::C42.facets[1].case) },
        Facet { name: "QCOW image", work: Work::Random(100, 1000), case: |g| debugged(g, qcow::C43.facets[0].case) },
        Facet { name: "QCOW compressed", work: Work::Random(15, 150), case: |g| debugged(g, qcow::C43.facets[1].case) },
        Facet { name: "QCOW circle", work: Work::Random(5, 50), case: |g| debugged(g, qcow::C43.facets[2].case) },
        Facet { name: "QCOW damaged", work: Work::Random(100, 1000), case: |g| debugged(g, qcow::C43.facets[3].case) },
        Facet { name: "VHD image", work: Work::Random(75, 750), case: |g| debugged(g, vhd::C44.facets[0].case) },
        Facet { name: "VHD parents", work: Work::Random(10, 100), case: |g| debugged(g, vhd::C44.facets[1].case) },
        Facet { name: "VHD damaged", work: Work::Random(75, 750), case: |g| debugged(g, vhd::C44.facets[2].case) },
        Facet { name: "VHDX image", work: Work::Random(50, 500), case: |g| debugged(g, vhdx::C45.facets[0].case) },
        Facet { name: "VHDX parents", work: Work::Random(7, 70), case: |g| debugged(g, vhdx::C45.facets[1].case) },
        Facet { name: "VHDX checksums", work: Work::Random(5, 50), case: |g| debugged(g, vhdx::C45.facets[2].case) },
        Facet { name: "VHDX damaged", work: Work::Random(50, 500), case: |g| debugged(g, vhdx::C45.facets[3].case) },
        Facet { name: "sparse image image", work: Work::Random(75, 750), case: |g| debugged(g, apple::C46.facets[0].case) },
        Facet { name: "sparse image cut off", work: Work::Random(15, 150), case: |g| debugged(g, apple::C46.facets[1].case) },
        Facet { name: "sparse image damaged", work: Work::Random(50, 500), case: |g| debugged(g, apple::C46.facets[2].case) },
        Facet { name: "UDIF image", work: Work::Random(20, 200), case: |g| debugged(g, apple::C47.facets[0].case) },
        Facet { name: "UDIF short block", work: Work::Random(10, 100), case: |g| debugged(g, apple::C47.facets[1].case) },
        Facet { name: "UDIF damaged", work: Work::Random(25, 250), case: |g| debugged(g, apple::C47.facets[2].case) },
        Facet { name: "UDIF tables", work: Work::Random(75, 750), case: |g| debugged(g, apple::C47.facets[3].case) },
        Facet { name: "sparse bundle image", work: Work::Random(50, 500), case: |g| debugged(g, apple::C53.facets[0].case) },
        Facet { name: "sparse bundle damaged", work: Work::Random(75, 750), case: |g| debugged(g, apple::C53.facets[1].case) },
        Facet { name: "EWF image", work: Work::Random(7, 70), case: |g| debugged(g, ewf::C48.facets[0].case) },
        Facet { name: "EWF facts", work: Work::Random(7, 70), case: |g| debugged(g, ewf::C48.facets[4].case) },
        Facet { name: "EWF missing segment files", work: Work::Random(4, 40), case: |g| debugged(g, ewf::C48.facets[5].case) },
        Facet { name: "EWF checksums", work: Work::Random(7, 70), case: |g| debugged(g, ewf::C48.facets[6].case) },
        Facet { name: "EWF damaged", work: Work::Random(15, 150), case: |g| debugged(g, ewf::C48.facets[7].case) },
        Facet { name: "FAT fat12", work: Work::Random(4, 40), case: |g| debugged(g, fat::C49.facets[0].case) },
        Facet { name: "FAT fat16", work: Work::Random(4, 40), case: |g| debugged(g, fat::C49.facets[1].case) },
        Facet { name: "FAT fat32", work: Work::Random(4, 40), case: |g| debugged(g, fat::C49.facets[2].case) },
        Facet { name: "FAT large", work: Work::Random(4, 40), case: |g| debugged(g, fat::C49.facets[3].case) },
        Facet { name: "FAT refused", work: Work::Random(4, 40), case: |g| debugged(g, fat::C49.facets[4].case) },
        Facet { name: "FAT damaged", work: Work::Random(4, 40), case: |g| debugged(g, fat::C49.facets[5].case) },
        Facet { name: "ext volumes", work: Work::Random(7, 70), case: |g| debugged(g, ext::C50.facets[0].case) },
        Facet { name: "ext large", work: Work::Random(4, 40), case: |g| debugged(g, ext::C50.facets[1].case) },
        Facet { name: "ext refused", work: Work::Random(4, 40), case: |g| debugged(g, ext::C50.facets[2].case) },
        Facet { name: "ext damaged", work: Work::Random(5, 50), case: |g| debugged(g, ext::C50.facets[3].case) },
        Facet { name: "NTFS volumes", work: Work::Random(6, 60), case: |g| debugged(g, ntfs::C51.facets[0].case) },
        Facet { name: "NTFS refused", work: Work::Random(4, 40), case: |g| debugged(g, ntfs::C51.facets[1].case) },
        Facet { name: "NTFS damaged", work: Work::Random(6, 60), case: |g| debugged(g, ntfs::C51.facets[2].case) },
    ],
};
