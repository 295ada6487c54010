# drafted from reviewed code, parsed and never executed
import json
import ROOT
import xboa.common as common
import xboa.hit.factory
from xboa.hit.factory import HitFactoryBase
from xboa.hit.factory._maus_root_recon_hit_factory import MausRootReconHitFactory

@spec("xboa.hit.factory._maus_root_recon_hit_factory:MausRootReconHitFactory.__init__", props="P11")
def ref_MausRootReconHitFactory_init(self, root_tree, format, entry=0, test_function=None):
    if format not in self.file_types():
        raise KeyError('Did not recognise format ' + str(format))
    self.entry = entry
    self.hits = []
    self.format = format[10:]
    self.tree = root_tree
    self.spill = None
    self.test_function = test_function

@spec("xboa.hit.factory._maus_root_recon_hit_factory:MausRootReconHitFactory.new_spill", props="P11")
def ref_MausRootReconHitFactory_new_spill(self):
    data = ROOT.MAUS.Data()
    self.tree.SetBranchAddress('data', data)
    if self.entry >= self.tree.GetEntries():
        raise IndexError('Out of entries')
    self.tree.GetEntry(self.entry)
    self.spill = data.GetSpill()
    self.spill_number = self.spill.GetSpillNumber()
    self._read_maus_spill()
    self.hits = [hit for hit in self.hits if self.test_function == None or self.test_function(hit)]
    self.entry += 1

@spec("xboa.hit.factory._maus_root_recon_hit_factory:MausRootReconHitFactory.make_hit", props="P11")
def ref_MausRootReconHitFactory_make_hit(self):
    try:
        while len(self.hits) == 0:
            self.new_spill()
        return self.hits.pop(0)
    except IndexError:
        raise xboa.hit.BadEventError('Run out of events')

@spec("xboa.hit.factory._maus_root_recon_hit_factory:MausRootReconHitFactory._read_maus_spill", props="P11")
def ref_MausRootReconHitFactory_read_maus_spill(self):
    for rec_i, recon_event in enumerate(self.spill.GetReconEvents()):
        scifi_event = recon_event.GetSciFiEvent()
        scifi_trackpoints = [hit for hit in self._read_scifi_trackpoints(scifi_event)]
        if len(scifi_trackpoints) == 0:
            continue
        for trackpoint in scifi_trackpoints:
            trackpoint['event_number'] = rec_i
        if self.format == 'scifi_trackpoint':
            self.hits += scifi_trackpoints
            continue
        tof_event = recon_event.GetTOFEvent()
        delta_t = self._read_tof_01_space_points(tof_event)
        if len(delta_t) == 0 and self.fallback_on_slabs:
            delta_t = self._read_tof_01_slab_hits(tof_event)
        if len(delta_t) == 0 and self.fallback_on_digits:
            delta_t = self._read_tof_01_digits(tof_event)
        if len(delta_t) == 0:
            continue
        for trackpoint in scifi_trackpoints:
            trackpoint['t'] = delta_t[0]
        self.hits += scifi_trackpoints

@spec("xboa.hit.factory._maus_root_recon_hit_factory:MausRootReconHitFactory._read_scifi_trackpoints", props="P11")
def ref_MausRootReconHitFactory_read_scifi_trackpoints(self, scifi_event):
    for track_i, track in enumerate(scifi_event.scifitracks()):
        if self.sf_p_value_cut > 0.0 and track.P_value() < self.sf_p_value_cut:
            continue
        for trackpoint in track.scifitrackpoints():
            sf_tracker = trackpoint.tracker()
            sf_station = trackpoint.station()
            sf_plane = trackpoint.plane()
            if sf_tracker > 10 or sf_tracker < 0 or sf_station > 10 or (sf_station < 0) or (sf_plane > 10) or (sf_plane < 0):
                raise ValueError('scifi trackpoint station index out of range')
            station = self.sf_station_offset + sf_tracker * self.sf_tracker_coeff + sf_station * self.sf_station_coeff + sf_plane * self.sf_plane_coeff
            hit = xboa.hit.Hit()
            hit['station'] = station
            hit['x'] = trackpoint.pos().x()
            hit['y'] = trackpoint.pos().y()
            hit['z'] = trackpoint.pos().z()
            hit['px'] = trackpoint.mom().x()
            hit['py'] = trackpoint.mom().y()
            hit['pz'] = trackpoint.mom().z()
            hit['spill'] = self.spill_number
            hit['particle_number'] = track_i
            yield hit

@spec("xboa.hit.factory._maus_root_recon_hit_factory:MausRootReconHitFactory._read_tof_01_space_points", props="P11")
def ref_MausRootReconHitFactory_read_tof_01_space_points(self, tof_event):
    space_points = tof_event.GetTOFEventSpacePoint()
    tof0_list = [t.GetTime() for t in space_points.GetTOF0SpacePointArray()]
    tof1_list = [t.GetTime() for t in space_points.GetTOF1SpacePointArray()]
    tof01_list = []
    for tof1 in tof1_list:
        for tof0 in tof0_list:
            tof01_list.append(tof1 - tof0)
    return tof01_list

@spec("xboa.hit.factory._maus_root_recon_hit_factory:MausRootReconHitFactory._read_tof_01_slab_hits", props="P11")
def ref_MausRootReconHitFactory_read_tof_01_slab_hits(self, tof_event):
    slab_hits = tof_event.GetTOFEventSlabHit()
    tof0_slabs = [hit.GetRawTime() for hit in slab_hits.GetTOF0SlabHitArray()]
    tof1_slabs = [hit.GetRawTime() for hit in slab_hits.GetTOF1SlabHitArray()]
    if len(tof0_slabs) > 0 and len(tof1_slabs) > 0:
        tof0_mean = sum(tof0_slabs) / len(tof0_slabs)
        tof1_mean = sum(tof1_slabs) / len(tof1_slabs)
        return [tof1_mean - tof0_mean]
    return []

@spec("xboa.hit.factory._maus_root_recon_hit_factory:MausRootReconHitFactory._read_tof_01_digits", props="P11")
def ref_MausRootReconHitFactory_read_tof_01_digits(self, tof_event):
    digits = tof_event.GetTOFEventDigit()
    tof0_digs = [dig.GetLeadingTime() for dig in digits.GetTOF0DigitArray()]
    tof1_digs = [dig.GetLeadingTime() for dig in digits.GetTOF1DigitArray()]
    if len(tof0_digs) > 0 and len(tof1_digs) > 0:
        tof0_mean = sum(tof0_digs) / len(tof0_digs)
        tof1_mean = sum(tof1_digs) / len(tof1_digs)
        return [tof1_mean - tof0_mean]
    return []

@spec("xboa.hit.factory._maus_root_recon_hit_factory:MausRootReconHitFactory.file_types", props="P08")
def ref_MausRootReconHitFactory_file_types(cls):
    return ['maus_root_scifi_trackpoint', 'maus_root_scifi_and_tof']
