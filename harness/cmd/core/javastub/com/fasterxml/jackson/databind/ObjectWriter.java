package com.fasterxml.jackson.databind;
import com.fasterxml.jackson.core.*;
public class ObjectWriter {
    final ObjectMapper om;
    ObjectWriter(ObjectMapper om) { this.om = om; }
    public ObjectWriter with(SerializationFeature f) { return this; }
    public ObjectWriter withDefaultPrettyPrinter() { return this; }
    public String writeValueAsString(Object o) throws JsonProcessingException { return om.writeValueAsString(o); }
}
