package com.fasterxml.jackson.databind;
import com.fasterxml.jackson.core.*;
import java.io.IOException;
public abstract class JsonDeserializer<T> {
    public abstract T deserialize(JsonParser jp, DeserializationContext ctxt) throws IOException, JsonProcessingException;
    public static abstract class None extends JsonDeserializer<Object> {}
}
